From d4dbce0307561f39c0239803260eafc0199e8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 01/71] fix: keep the exponent and subscript of the imaginary
 unit I

---
 latex2sympy/latex2sympy2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index bc076fd..219d978 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -596,8 +596,6 @@ def convert_atom(atom):
         atom_text = ''
         if atom_expr.LETTER_NO_E():
             atom_text = atom_expr.LETTER_NO_E().getText()
-            if atom_text == "I":
-                return sympy.I
         elif atom_expr.GREEK_CMD():
             atom_text = atom_expr.GREEK_CMD().getText()[1:].strip()
         elif atom_expr.OTHER_SYMBOL_CMD():
@@ -650,6 +648,10 @@ def convert_atom(atom):
                 variances[matrix_symbol] = variances[atom_symbol]
             except:
                 pass
+        # imaginary unit
+        if atom_text + subscript_text == "I":
+            atom_symbol = sympy.I
+            matrix_symbol = None
 
         # find the atom's superscript, and return as a Pow if found
         if atom_expr.supexpr():
-- 
2.43.0


From 8225a7437d136e823a41f26874aba11d565cfde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 02/71] fix: negating a matrix no longer raises TypeError

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 219d978..61f7a2a 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -447,7 +447,7 @@ def convert_unary(unary):
     elif unary.SUB():
         tmp_convert_nested_unary = convert_unary(nested_unary)
         if tmp_convert_nested_unary.is_Matrix:
-            return mat_mul_flat(-1, tmp_convert_nested_unary, evaluate=False)
+            return mat_mul_flat(-1, tmp_convert_nested_unary)
         else:
             if tmp_convert_nested_unary.func.is_Number:
                 return -tmp_convert_nested_unary
-- 
2.43.0


From d90cc2658289d21d5aea696b51550f6ee08e7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 03/71] fix: a function raised to the power 0 keeps its
 exponent

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 61f7a2a..348428c 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -895,7 +895,7 @@ def convert_func(func):
                 should_pow = False
             expr = getattr(sympy.functions, name)(arg, evaluate=False)
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
@@ -943,7 +943,7 @@ def convert_func(func):
             else:
                 func_pow = convert_atom(func.supexpr().atom())
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
-- 
2.43.0


From cddfe70441b0fcc131d225007eb3e8a928bf78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 04/71] fix: list-valued matrix operators are not mistaken for
 a derivative

---
 latex2sympy/latex2sympy2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 348428c..66a53e6 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -476,6 +476,11 @@ def convert_postfix_list(arr, i=0):
                 return mul_flat(res, rh)
     elif isinstance(res, (tuple, dict)):
         return res
+    elif not (len(res) == 1 and isinstance(res[0], sympy.Symbol)):
+        # list-valued operator, e.g., rows, cols, nullspace, eigenvects
+        if i < len(arr) - 1:
+            raise Exception("Cannot multiply a list")
+        return res
     else:  # must be derivative
         assert diff_op or partial_op
         wrt = res[0]
-- 
2.43.0


From c335a6eebb6e2eeb629287e89742668fdf5fffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 05/71] fix: arguments of multi-argument functions may contain
 commas themselves

---
 latex2sympy/latex2sympy2.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 66a53e6..d0d264a 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -750,6 +750,22 @@ def rule2text(ctx):
     return stream.getText(startIdx, stopIdx)
 
 
+def split_args(text):
+    """Split the text of an argument list at its top-level commas."""
+    args = ['']
+    depth = 0
+    for ch in text:
+        if ch == ',' and depth == 0:
+            args.append('')
+            continue
+        if ch in '([{':
+            depth += 1
+        elif ch in ')]}':
+            depth -= 1
+        args[-1] += ch
+    return [arg.strip() for arg in args]
+
+
 def convert_frac(frac):
     global diff_op, partial_op
     diff_op, partial_op = False, False
@@ -907,7 +923,7 @@ def convert_func(func):
 
     elif func.func_normal_multi_arg():
         if func.L_PAREN():  # function called with parenthesis
-            args = func.func_multi_arg().getText().split(",")
+            args = split_args(rule2text(func.func_multi_arg()))
         else:
             args = func.func_multi_arg_noparens().split(",")
 
@@ -956,7 +972,7 @@ def convert_func(func):
         # define a function
         f = sympy.Function(func.atom_expr_no_supexpr().getText())
         # args
-        args = func.func_common_args().getText().split(",")
+        args = split_args(rule2text(func.func_common_args()))
         if args[-1] == '':
             args = args[:-1]
         args = [latex2sympy(arg, VARIABLE_VALUES) for arg in args]
-- 
2.43.0


From c8e104c260840efc20f61a92c4409a5581cfeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 06/71] fix: an unbraced numeric exponent or subscript ends at
 white space

---
 latex2sympy/latex2sympy2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index d0d264a..8f303a4 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -68,6 +68,8 @@ def latex2sympy(sympy: str, variable_values={}):
     sympy = sympy.replace(r'\quad', ' ', -1).replace(r'\qquad', ' ', -1).replace(r'~', ' ', -1).replace(r'\,', ' ', -1)
     # Remove $
     sympy = sympy.replace(r'$', ' ', -1)
+    # An unbraced exponent or subscript ends at white space, x^2 3 => x^{2} 3
+    sympy = re.sub(r"([\^_])\s*(\d+)\s+(?=[\d.])", r"\1{\2} ", sympy)
 
     # variable values
     global VARIABLE_VALUES
-- 
2.43.0


From 3753edb10bf54d5bfa9c65679764c0786d5be479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 07/71] fix: placeholder values may be plain Python numbers or
 strings

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 8f303a4..c75e144 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -717,7 +717,7 @@ def convert_atom(atom):
         # replace the variable for already known variable values
         if name in VARIABLE_VALUES:
             # if a sympy class
-            if VARIABLE_VALUES[name].__module__.startswith("sympy"):
+            if type(VARIABLE_VALUES[name]).__module__.startswith("sympy"):
                 symbol = VARIABLE_VALUES[name]
 
             # if NOT a sympy class
-- 
2.43.0


From 49d86198d98e74d260f4c135ba895fe709df9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 08/71] fix: placeholder values also apply inside and after a
 derivative quotient

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index c75e144..b0b8456 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -801,9 +801,9 @@ def convert_frac(frac):
 
             expr_top = None
             if diff_op and upper_text.startswith('d'):
-                expr_top = latex2sympy(upper_text[1:])
+                expr_top = latex2sympy(upper_text[1:], VARIABLE_VALUES)
             elif partial_op and frac.upper.start.text == '\\partial':
-                expr_top = latex2sympy(upper_text[len('\\partial'):])
+                expr_top = latex2sympy(upper_text[len("\\partial"):], VARIABLE_VALUES)
             if expr_top:
                 return sympy.Derivative(expr_top, wrt)
 
-- 
2.43.0


From 576f8835b7b3ded0f4cc5d92238302975f659dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 09/71] fix: typed comparison of vectors and sets uses the
 verdict, not the (verdict, splitted) pair, which is always true

---
 math_evaluation/core/type_evaluations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index fb984dd..e985c0a 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -113,7 +113,7 @@ def is_equiv_vector(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
@@ -134,7 +134,7 @@ def is_equiv_set(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
-- 
2.43.0


From d973ffcd8e9105ab9697579d791a2e83015b28ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 10/71] fix: typed comparison does not raise on answers with
 alternative normal forms, missing answers or a missing type

---
 math_evaluation/core/type_evaluations.py | 88 ++++++++++++------------
 1 file changed, 43 insertions(+), 45 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index e985c0a..4eb1bd3 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -22,6 +22,12 @@ from .latex_parser import are_equal_under_sympy, _are_equal_latex_sympy
 from .constants import *
 
 
+def _normal_forms(expr: str) -> list:
+    """string_normalize may return one string or a set of alternative strings"""
+    normalized = string_normalize(expr)
+    return sorted(normalized) if isinstance(normalized, set) else [normalized]
+
+
 def is_equiv_complex(
     ground_truth: str, 
     prediction: str,
@@ -30,27 +36,16 @@ def is_equiv_complex(
     ground_truth = _str_to_complex(ground_truth)
     prediction = _str_to_complex(prediction)
 
-    grt_normalized = string_normalize(ground_truth).replace("\\sqrt{-1}", "I")
-    pre_normalized = string_normalize(prediction).replace("\\sqrt{-1}", "I")
-
-    try:
-        if isinstance(grt_normalized, set) or isinstance(pre_normalized, set):
-            if isinstance(grt_normalized, str):
-                grt_normalized = {grt_normalized}
-            if isinstance(pre_normalized, str):
-                pre_normalized = {pre_normalized}
-            for grt_norm in grt_normalized:
-                for pre_norm in pre_normalized:
-                    try:
-                        if is_latex_equiv(grt_norm, pre_norm, verbose=verbose):
-                            return True
-                    except:
-                        continue
-            return False
-        else:
-            return is_latex_equiv(grt_normalized, pre_normalized, verbose=verbose)
-    except:
-        return False
+    for grt_norm in _normal_forms(ground_truth):
+        for pre_norm in _normal_forms(prediction):
+            grt_norm = grt_norm.replace("\\sqrt{-1}", "I")
+            pre_norm = pre_norm.replace("\\sqrt{-1}", "I")
+            try:
+                if is_latex_equiv(grt_norm, pre_norm, verbose=verbose):
+                    return True
+            except:
+                continue
+    return False
 
 
 def try_to_parse_function(expr: str):
@@ -84,13 +79,14 @@ def is_equiv_function(
     if is_equiv(ground_truth, prediction):
         return True
     
-    grt_normalized = string_normalize(ground_truth)
-    pre_normalized = string_normalize(prediction)
-    
-    grt_func = try_to_parse_function(grt_normalized)
-    pre_func = try_to_parse_function(pre_normalized)
+    for grt_normalized in _normal_forms(ground_truth):
+        for pre_normalized in _normal_forms(prediction):
+            grt_func = try_to_parse_function(grt_normalized)
+            pre_func = try_to_parse_function(pre_normalized)
+            if is_equiv(grt_func, pre_func):
+                return True
 
-    return is_equiv(grt_func, pre_func)
+    return False
 
 
 def is_equiv_vector(
@@ -98,9 +94,6 @@ def is_equiv_vector(
     prediction: str,
     verbose: bool = False,
 ) -> bool:
-    grt_normalized = string_normalize(ground_truth)
-    pre_normalized = string_normalize(prediction)
-
     def preprocess(normalized: str) -> str:
         if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
             return normalized
@@ -110,12 +103,14 @@ def is_equiv_vector(
             normalized = "[" + normalized + "]"
         return normalized
 
-    grt_normalized = preprocess(grt_normalized)
-    pre_normalized = preprocess(pre_normalized)
-    try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
-    except:
-        return False
+    for grt_normalized in _normal_forms(ground_truth):
+        for pre_normalized in _normal_forms(prediction):
+            try:
+                if is_equiv_possible_tuple(preprocess(grt_normalized), preprocess(pre_normalized), verbose)[0]:
+                    return True
+            except:
+                continue
+    return False
 
 
 def is_equiv_set(
@@ -123,20 +118,19 @@ def is_equiv_set(
     prediction: str, 
     verbose: bool = False,
 ) -> bool:
-    grt_normalized = string_normalize(ground_truth)
-    pre_normalized = string_normalize(prediction)
-
     def preprocess(normalized: str) -> str:
         if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
             normalized = normalized[1:-1]
         return normalized
 
-    grt_normalized = preprocess(grt_normalized)
-    pre_normalized = preprocess(pre_normalized)
-    try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
-    except:
-        return False
+    for grt_normalized in _normal_forms(ground_truth):
+        for pre_normalized in _normal_forms(prediction):
+            try:
+                if is_equiv_possible_tuple(preprocess(grt_normalized), preprocess(pre_normalized), verbose)[0]:
+                    return True
+            except:
+                continue
+    return False
 
 
 def is_equiv_type(
@@ -160,6 +154,10 @@ def is_equiv_type(
         # 'Others': is_equiv,
     }
     is_equal = False
+    if ground_truth is None or prediction is None or answer_type is None:
+        # a missing answer has no type, and without a type there is nothing to add to `is_equiv`
+        return is_equiv(ground_truth, prediction, verbose)
+
     for type_name, check_func in equiv_checks.items():
         if re.search(type_name, answer_type): 
             if check_func(ground_truth, prediction):
-- 
2.43.0


From e4abe98dcb742bf88950fc99d79f71504828b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 11/71] fix: typed comparison of vectors and sets strips only a
 matching pair of brackets, and any bracket style is a vector

---
 math_evaluation/core/type_evaluations.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 4eb1bd3..cc07cbb 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -89,19 +89,25 @@ def is_equiv_function(
     return False
 
 
+def _strip_brackets(expr: str, pairs: list) -> str:
+    """remove one pair of brackets around the whole expression, but keep (1, 2), (3, 4)"""
+    if expr[:1] + expr[-1:] in pairs:
+        depth = 0
+        for i, ch in enumerate(expr):
+            depth += (ch in "([{") - (ch in ")]}")
+            if depth == 0:
+                return expr[1:-1] if i == len(expr) - 1 else expr
+    return expr
+
+
 def is_equiv_vector(
     ground_truth: str,
     prediction: str,
     verbose: bool = False,
 ) -> bool:
     def preprocess(normalized: str) -> str:
-        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
-            return normalized
-        elif normalized.startswith("{") and normalized.endswith("}"):
-            normalized = "[" + normalized[1:-1] + "]"
-        else:
-            normalized = "[" + normalized + "]"
-        return normalized
+        # any bracket style denotes the same vector
+        return "[" + _strip_brackets(normalized, ["()", "[]", "{}"]) + "]"
 
     for grt_normalized in _normal_forms(ground_truth):
         for pre_normalized in _normal_forms(prediction):
@@ -119,9 +125,7 @@ def is_equiv_set(
     verbose: bool = False,
 ) -> bool:
     def preprocess(normalized: str) -> str:
-        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
-            normalized = normalized[1:-1]
-        return normalized
+        return _strip_brackets(normalized, ["()", "[]"])
 
     for grt_normalized in _normal_forms(ground_truth):
         for pre_normalized in _normal_forms(prediction):
-- 
2.43.0


From 021b54bc3b5d4ac47bee8098267f5b9bbecd0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 12/71] fix: LaTeX set braces compare like plain ones, and only
 braces around the whole answer are dropped

---
 math_evaluation/core/latex_normalize.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 50742d0..d88cbcb 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -324,6 +324,10 @@ def _string_normalize(expr: str):
     expr = re.sub(r"\\right\)", ")", expr)
     expr = re.sub(r"\\right\]", "]", expr)
 
+    # set braces, \{1, 2\} -> {1, 2}
+    expr = re.sub(r"(\\left *)?(?<!\\)\\\{", "{", expr)
+    expr = re.sub(r"(\\right *)?(?<!\\)\\\}", "}", expr)
+
     # remove x \in
     expr = re.sub(r"[a-zA-Z]+\s*\\in", "", expr)
 
@@ -381,9 +385,20 @@ def _string_normalize(expr: str):
     return further_string_normalize(expr)
 
 
+def _is_enclosed(expr: str) -> bool:
+    """whether the first bracket is closed by the last character, {1, 2} but not {1}, {2}"""
+    cnt = 0
+    for i, ch in enumerate(expr):
+        cnt += (ch == "[" or ch == "(" or ch == "{")
+        cnt -= (ch == "]" or ch == ")" or ch == "}")
+        if cnt == 0:
+            return i == len(expr) - 1
+    return False
+
+
 def further_string_normalize(expr: str):
     """Normalize str expressions"""
-    if len(expr) > 0 and expr[0] == "{" and expr[-1] == "}":
+    if len(expr) > 0 and expr[0] == "{" and expr[-1] == "}" and _is_enclosed(expr):
         expr = expr[1:-1]
     
     if _is_float(expr) and _is_int(float(expr)):
-- 
2.43.0


From b33ace2f3d94831aa89f48d4b5504fa56c60ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 13/71] fix: members of unordered answers are paired off one to
 one whatever their order

---
 math_evaluation/core/evaluations.py  | 17 ++++------
 math_evaluation/core/latex_parser.py | 46 ++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 83ab1fd..85c630c 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -10,7 +10,7 @@ from .latex_normalize import (
     _str_to_mat,
     _str_to_interval,
 )
-from .latex_parser import are_equal_under_sympy
+from .latex_parser import are_equal_under_sympy, has_perfect_matching
 from .constants import EPSILON
 import sympy
 
@@ -127,16 +127,11 @@ def is_equiv_possible_tuple(
                 return False, splitted
         return True, splitted
     elif isinstance(ground_truth_elems, set):
-        gt_found_matches = [False] * len(ground_truth_elems)
-        gv_found_matches = [False] * len(given_elems)
-        for i, ground_truth_elem in enumerate(ground_truth_elems):
-            if not gt_found_matches[i]:
-                for j, given_elem in enumerate(given_elems):
-                    if not gv_found_matches[j] and is_equiv(ground_truth_elem, given_elem, verbose):
-                        gt_found_matches[i] = True
-                        gv_found_matches[j] = True
-                        break
-        return all(gt_found_matches), splitted
+        return has_perfect_matching(
+            list(ground_truth_elems),
+            list(given_elems),
+            lambda ground_truth_elem, given_elem: is_equiv(ground_truth_elem, given_elem, verbose),
+        ), splitted
 
     return is_correct, splitted
 
diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 53f435e..8649e4d 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -283,6 +283,33 @@ def _diff_equal(
     return diff_equal
 
 
+def has_perfect_matching(gt_elems: list, gv_elems: list, equal) -> bool:
+    """
+    Whether the elements of two unordered collections can be paired off one to one.
+    Equality is up to a tolerance, so the first equal element is not always the right partner.
+    """
+    if len(gt_elems) != len(gv_elems):
+        return False
+
+    verdicts = {}
+    partner = {}
+
+    def find_partner(i, visited):
+        for j, gv_elem in enumerate(gv_elems):
+            if j in visited:
+                continue
+            if (i, j) not in verdicts:
+                verdicts[i, j] = equal(gt_elems[i], gv_elem)
+            if verdicts[i, j]:
+                visited.add(j)
+                if j not in partner or find_partner(partner[j], visited):
+                    partner[j] = i
+                    return True
+        return False
+
+    return all(find_partner(i, set()) for i in range(len(gt_elems)))
+
+
 def _are_equal_latex_sympy(
     gt_latex_sympy: Any, 
     gv_latex_sympy: Any,
@@ -308,19 +335,12 @@ def _are_equal_latex_sympy(
         if len(gt_latex_sympy) != len(gv_latex_sympy):
             return False
         
-        for i, _gt in enumerate(gt_latex_sympy):
-            _gt_type = _get_sympy_type(_gt)
-            found_match = False
-            for _gv in gv_latex_sympy:
-                _gv_type = _get_sympy_type(_gv)
-                if _are_equal_latex_sympy(_gt, _gv, _gt_type, _gv_type):
-                    found_match = True
-                    break
-            if not found_match:
-                return False
-        
-        return True
-    
+        return has_perfect_matching(
+            list(gt_latex_sympy),
+            list(gv_latex_sympy),
+            lambda _gt, _gv: _are_equal_latex_sympy(_gt, _gv, _get_sympy_type(_gt), _get_sympy_type(_gv)),
+        )
+
     if gt_type == gv_type == ANSWER_TYPE_EQUL:
         gt_latex_sympy = gt_latex_sympy.lhs - gt_latex_sympy.rhs
         gv_latex_sympy = gv_latex_sympy.lhs - gv_latex_sympy.rhs
-- 
2.43.0


From 5dee4c2ef3a03f58dd0bc660f71e9f94cf91f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 14/71] fix: disequalities compare both pairs of sides

---
 math_evaluation/core/latex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 8649e4d..d9aecad 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -361,7 +361,7 @@ def _are_equal_latex_sympy(
             # must be `Unequality` with rel_op !=
             # A != B, A1 != B1, we compare two sets: {A, B} and {A1, B1}
             gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
-            gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
+            gv_latex_sympy = _uneq_to_set(gv_latex_sympy)
             gt_type = _get_sympy_type(gt_latex_sympy)
             gv_type = _get_sympy_type(gv_latex_sympy)
             return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, gt_type, gv_type)
-- 
2.43.0


From 9f8b8c7f78dd7d94c014e50d777d07342718c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 15/71] fix: intervals with brackets inside the end points,
 Unicode unions, points like (2, 2) and empty intersections are read correctly

---
 math_evaluation/core/latex_normalize.py | 38 +++++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index d88cbcb..ac5ed11 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -27,7 +27,7 @@ def _parse_latex(expr: str) -> str:
     expr = expr.replace("√", "sqrt")
     expr = expr.replace("π", "pi")
     expr = expr.replace("∞", "inf")
-    expr = expr.replace("∪", "U")
+    expr = expr.replace("∪", "\\cup ")
     expr = expr.replace("·", "*")
     expr = expr.replace("×", "*")
 
@@ -123,17 +123,34 @@ def _str_matrix_normalize(expr: str):
     return expr
 
 
+def _split_top_level(expr: str):
+    """split at the commas that are not inside brackets"""
+    parts = [""]
+    cnt = 0
+    for ch in expr:
+        cnt += (ch == "[" or ch == "(" or ch == "{")
+        cnt -= (ch == "]" or ch == ")" or ch == "}")
+        if ch == "," and cnt == 0:
+            parts.append("")
+        else:
+            parts[-1] += ch
+    return parts
+
+
 def _str_to_interval(x: str):
     try:
-        x = x.split('⋃') if '⋃' in x else x.split('\\cup')
+        x = re.split(r'⋃|∪|\\cup', x)
         _interval = sympy.EmptySet
         for or_interval in x:
-            _or_interval = sympy.EmptySet
-            for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
+            _or_interval = None
+            for and_interval in re.split(r'⋂|∩|\\cap', or_interval):
                 and_interval = and_interval.strip()
-                int_start, int_end = and_interval.split(',')
-                int_start = latex2sympy(int_start.replace('(', '').replace('[', ''))
-                int_end = latex2sympy(int_end.replace(')', '').replace(']', ''))
+                # only the outer brackets belong to the interval, e.g., (2(1+3), 100]
+                if and_interval[0] not in '([' or and_interval[-1] not in ')]':
+                    raise Exception('Not an Interval')
+                int_start, int_end = _split_top_level(and_interval[1:-1])
+                int_start = latex2sympy(int_start)
+                int_end = latex2sympy(int_end)
                 # check validation
                 if int_start.is_number:
                     int_start = int_start.evalf()
@@ -145,9 +162,12 @@ def _str_to_interval(x: str):
                         int_end = sympy.Integer(int_end)
                 if int_start.is_number and int_end.is_number and int_start > int_end:
                     raise Exception('Illegal Interval range')
+                if int_start == int_end and and_interval[0] + and_interval[-1] != '[]':
+                    # e.g., the point (2, 2)
+                    raise Exception('Illegal Interval range')
                 # define sympy Interval
-                temp_int = sympy.Interval(int_start, int_end, left_open='(' in and_interval, right_open=')' in and_interval)
-                if _or_interval.is_empty:
+                temp_int = sympy.Interval(int_start, int_end, left_open=and_interval[0] == '(', right_open=and_interval[-1] == ')')
+                if _or_interval is None:
                     _or_interval = temp_int
                 else:
                     _or_interval = _or_interval.intersect(temp_int)
-- 
2.43.0


From 5257e35c02b804d6525ca1f3b15d37e44363bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 16/71] fix: interval end points compare by value

---
 math_evaluation/core/evaluations.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 85c630c..e1311c0 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -10,7 +10,7 @@ from .latex_normalize import (
     _str_to_mat,
     _str_to_interval,
 )
-from .latex_parser import are_equal_under_sympy, has_perfect_matching
+from .latex_parser import are_equal_under_sympy, has_perfect_matching, _are_equal_latex_sympy, _get_sympy_type
 from .constants import EPSILON
 import sympy
 
@@ -79,6 +79,28 @@ def is_latex_equiv(
     return is_correct
 
 
+def _are_equal_intervals(gt_interval: sympy.Set, gv_interval: sympy.Set) -> bool:
+    if gt_interval.compare(gv_interval) == 0:
+        return True
+
+    # the same pieces, with end points which are written or rounded differently
+    def pieces(interval):
+        return sorted(interval.args, key=lambda x: x.inf) if isinstance(interval, sympy.Union) else [interval]
+
+    gt_pieces, gv_pieces = pieces(gt_interval), pieces(gv_interval)
+    if len(gt_pieces) != len(gv_pieces):
+        return False
+    for gt_piece, gv_piece in zip(gt_pieces, gv_pieces):
+        if not isinstance(gt_piece, sympy.Interval) or not isinstance(gv_piece, sympy.Interval):
+            return False
+        if gt_piece.left_open != gv_piece.left_open or gt_piece.right_open != gv_piece.right_open:
+            return False
+        for gt_end, gv_end in zip(gt_piece.args[:2], gv_piece.args[:2]):
+            if gt_end != gv_end and not _are_equal_latex_sympy(gt_end, gv_end, _get_sympy_type(gt_end), _get_sympy_type(gv_end)):
+                return False
+    return True
+
+
 def is_equiv_possible_intervals(
     ground_truth_normalized: str, 
     given_normalized: str, 
@@ -91,7 +113,7 @@ def is_equiv_possible_intervals(
     if gt_interval is None and gv_interval is None:
         splitted = False
 
-    if gt_interval is not None and gv_interval is not None and gt_interval.compare(gv_interval) == 0:
+    if gt_interval is not None and gv_interval is not None and _are_equal_intervals(gt_interval, gv_interval):
         return True, splitted
 
     return False, splitted
-- 
2.43.0


From 8c9f86b5bc8151e61b19aa07c5f6db31f08ceb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 17/71] fix: mixed numbers keep their sign, and are not read
 into products of fractions

---
 math_evaluation/core/latex_normalize.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index ac5ed11..e4a8054 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -183,16 +183,19 @@ def _inject_implicit_mixed_number(expr: str):
     Automatically make a mixed number evalable
 
     two cases:
-        7 3/4 => 7+3/4: must have space
-        7\\frac34 => 7+\\frac34: space is optional
+        7 3/4 => (7+3/4): must have space
+        7\\frac34 => (7+\\frac34): space is optional
+
+    The number must stand on its own, e.g., not the 2 in x^2\\frac34 or \\frac12\\frac34, 
+    and the sum is in parentheses, since -7\\frac34 is -(7+\\frac34)
     """
     regex_cands = [
-        r"(\d+) +(\d+/\d+)",                    
-        r"(\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
+        r"(?<![\d.^_}])(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) +(\d+/\d+)",                    
+        r"(?<![\d.^_}])(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
     ]
     for regex in regex_cands:
         pattern = re.compile(regex)
-        expr = pattern.sub(r"\1+\2", expr)
+        expr = pattern.sub(r"(\1+\2)", expr)
     return expr
 
 
-- 
2.43.0


From 144d5f1c08ff620c6ae61dba3641789293b4a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 18/71] fix: percentages with thousands separators match their
 decimal value

---
 math_evaluation/core/latex_normalize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index e4a8054..66e3734 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -317,10 +317,11 @@ def _string_normalize(expr: str):
     if "%" in expr:
         expr = expr.replace("\\%", "%")
         expr = expr.replace("%", "")
-        if _is_float(expr):
+        number = _strip_properly_formatted_commas(expr)
+        if _is_float(number):
             return {
-                str(float(expr) / 100), 
-                str(float(expr)),
+                str(float(number) / 100), 
+                str(float(number)),
             }
 
     # Remove $
-- 
2.43.0


From e299ad3f74866c76b9e51491f8a8714394a6ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 19/71] fix: answers are parsed with mathematical names only,
 not evaluated as arbitrary Python code

---
 math_evaluation/core/latex_parser.py | 39 +++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index d9aecad..0bffb1c 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -3,11 +3,13 @@ import random
 import re
 import sympy
 
+from tokenize import STRING
 from typing import Tuple, Any, Dict, Optional
 
 from sympy.parsing.latex import parse_latex
 from sympy.parsing import sympy_parser
 from sympy import Symbol, pi, Expr, Matrix, I
+from sympy.matrices import MatrixBase
 from sympy.core.relational import Equality, Relational
 from latex2sympy.latex2sympy2 import latex2sympy
 from timeout_decorator import timeout
@@ -19,6 +21,39 @@ BAD_SUBSTRINGS = ["^{", "^("]
 BAD_REGEXES = ["\^[0-9]+\^", "\^[0-9][0-9]+"]
 
 
+# The answers are evaluated by `parse_expr` as Python code, 
+#   so only mathematical names are known to them, neither Python builtins nor functions of sympy with side effects.
+SAFE_FUNCTIONS = [
+    "sqrt", "cbrt", "root", "real_root", "gcd", "lcm", "prod", "deg", "rad",
+    "diff", "integrate", "limit", "summation", "product", "expand", "factor", "simplify",
+    "det", "trace", "diag", "eye", "ones", "zeros",
+]
+
+
+def _math_namespace() -> Dict[str, Any]:
+    namespace = {"__builtins__": {}}
+    for name in sympy.__all__:
+        obj = getattr(sympy, name)
+        is_math = isinstance(obj, sympy.Basic) or (isinstance(obj, type) and issubclass(obj, (sympy.Basic, MatrixBase)))
+        if is_math or name in SAFE_FUNCTIONS:
+            namespace[name] = obj
+    namespace["max"] = sympy.Max
+    namespace["min"] = sympy.Min
+    namespace.update(abs=abs, pow=pow, round=round, sum=sum)
+    return namespace
+
+
+MATH_NAMESPACE = _math_namespace()
+
+
+def _refuse_code(tokens, local_dict, global_dict):
+    """transformation of `parse_expr`: attributes, strings and internal names are not mathematics"""
+    for token_type, token in tokens:
+        if token_type == STRING or token == "." or "__" in token:
+            raise ValueError(f"The {token} is not mathematics.")
+    return tokens
+
+
 def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     """Parses an latex expression with sympy
 
@@ -54,8 +89,10 @@ def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     try:
         sp_or_py_expr = sympy_parser.parse_expr(
             py_expr,
+            global_dict=dict(MATH_NAMESPACE),
             transformations=(
-                sympy_parser.standard_transformations
+                (_refuse_code,)
+                + sympy_parser.standard_transformations
                 + (sympy_parser.implicit_multiplication_application,)
             ),
             # backend='lark'
-- 
2.43.0


From f8b76e8d07ab1a52454d775a0befae312205d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 20/71] fix: verdicts are the same in threads other than the
 main one

---
 math_evaluation/core/latex_parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 0bffb1c..902de84 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -1,6 +1,7 @@
 """match in sympy"""
 import random
 import re
+import threading
 import sympy
 
 from tokenize import STRING
@@ -12,7 +13,7 @@ from sympy import Symbol, pi, Expr, Matrix, I
 from sympy.matrices import MatrixBase
 from sympy.core.relational import Equality, Relational
 from latex2sympy.latex2sympy2 import latex2sympy
-from timeout_decorator import timeout
+import timeout_decorator
 
 from .constants import *
 
@@ -215,6 +216,13 @@ def expr_with_only_i(latex_sympy):
     return latex_sympy, is_cplx
 
 
+def timeout(*args, **kwargs):
+    """The alarm of `timeout_decorator` exists in the main thread only, other threads run without limit"""
+    if threading.current_thread() is threading.main_thread():
+        return timeout_decorator.timeout(*args, **kwargs)
+    return lambda func: func
+
+
 def sympy_simplify(sympy_expr: Expr):
 
     @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_simplify", seconds=TIMEOUT_SECONDS))
-- 
2.43.0


From 70084db40bfad92c835e0a700007f62b09e447fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 21/71] fix: the sample points of the numerical comparison do
 not depend on the global random state

---
 math_evaluation/core/latex_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 902de84..d3aec7c 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -289,7 +289,7 @@ def _numerical_equal(
     if not gt_latex_sympy.free_symbols == gv_latex_sympy.free_symbols:
         return False
     
-    gt_symbols = list(gt_latex_sympy.free_symbols)
+    gt_symbols = sorted(gt_latex_sympy.free_symbols, key=str)
     flag = True
     for _ in range(10):
         symbols_ = {a: rng(1, 10) for a in gt_symbols}
@@ -505,11 +505,13 @@ def _are_equal_latex_sympy(
     #       if x < 0, sqrt(x) * sqrt(1/x) = -1
     try:
         if gt_latex_sympy.free_symbols and gv_latex_sympy.free_symbols:
+            # fixed sample points: the verdict must not depend on the state of the global generator
+            rng = random.Random(0)
             # integer
-            num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, random.randint)
+            num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, rng.randint)
             if not num_equal:
                 # float 
-                num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, random.uniform)
+                num_equal = _numerical_equal(gt_latex_sympy, gv_latex_sympy, rng.uniform)
             return num_equal
     except:
         return False
-- 
2.43.0


From dcb37775716502f3b1155c3c24121b04cf4955b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 22/71] fix: 12 am is midnight

---
 math_evaluation/core/latex_normalize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 66e3734..44a512d 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -218,7 +218,8 @@ def _str_to_time_list(expr: str):
     match = re.search(regex, expr, re.IGNORECASE)
     if match:
         hour, meridiem = match.group(1, 2)
-        if "p.m." in meridiem.lower() or "pm" in meridiem.lower():
+        # 12 am is 0 o'clock
+        if "p.m." in meridiem.lower() or "pm" in meridiem.lower() or int(hour) == 12:
             hour = {
                 str(int(hour) % 12),
                 str(int(hour) % 12 + 12),
@@ -231,7 +232,8 @@ def _str_to_time_list(expr: str):
     if match:
         hour, minute, second, meridiem = match.group(1, 2, 3, 4)
         # second and meridem could be None
-        if meridiem and ("p.m." in meridiem.lower() or "pm" in meridiem.lower()):  
+        # 12 am is 0 o'clock
+        if meridiem and ("p.m." in meridiem.lower() or "pm" in meridiem.lower() or int(hour) == 12):
             hour = [
                 str(int(hour) % 12),
                 str(int(hour) % 12 + 12),
-- 
2.43.0


From 05db70820adbb4e0f27d1b9b6b2406badd3195f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 23/71] fix: the boxed prediction ends at its own closing
 brace, and may be at the start of the output

---
 example_tora_eval.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/example_tora_eval.py b/example_tora_eval.py
index 1512ca8..33bc5f0 100644
--- a/example_tora_eval.py
+++ b/example_tora_eval.py
@@ -29,10 +29,23 @@ for t_d in test_data:
 
 def extract_boxed(output):
     lidx = output.rfind("\\boxed{")
-    if lidx > 0:
-        lidx += len("\\boxed{")
-        ridx = output.rfind("}")
-        return output[lidx: ridx]
+    if lidx < 0:
+        return None
+    lidx += len("\\boxed{")
+    # up to the brace which closes the box
+    depth = 1
+    ridx = lidx
+    while ridx < len(output):
+        if output[ridx] == "\\":
+            ridx += 2
+            continue
+        if output[ridx] == "{":
+            depth += 1
+        elif output[ridx] == "}":
+            depth -= 1
+            if depth == 0:
+                return output[lidx: ridx]
+        ridx += 1
     return None
 
 cnt = 0
-- 
2.43.0


From 61cf35a33ae6e3fa6930c537b7b0ffcdf79ccd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 24/71] fix: large and tiny numbers keep all their digits in
 comparisons

---
 math_evaluation/core/constants.py       |  1 +
 math_evaluation/core/latex_normalize.py | 13 ++++++++-----
 math_evaluation/core/latex_parser.py    | 10 +++++++++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/math_evaluation/core/constants.py b/math_evaluation/core/constants.py
index b802840..37e51e6 100644
--- a/math_evaluation/core/constants.py
+++ b/math_evaluation/core/constants.py
@@ -14,6 +14,7 @@ ANSWER_TYPE_OTHS = "others"
 TUPLE_CHARS = "()[]"
 
 EPSILON = 1e-3
+LARGE_NUMBER = 1e11
 
 INVALID_ANS = "[invalid]"
 
diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 44a512d..37a9f79 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -2,6 +2,7 @@
 import re
 import sympy
 
+from decimal import Decimal
 from typing import Optional
 #from pylatexenc import latex2text
 from latex2sympy.latex2sympy2 import latex2sympy
@@ -88,8 +89,7 @@ def _is_frac(expr: str) -> bool:
 def _str_is_int(x: str) -> bool:
     try:
         x = _strip_properly_formatted_commas(x)
-        x = float(x)
-        return abs(x - int(round(x))) <= 1e-7
+        return float(x).is_integer()
     except:
         return False
 
@@ -427,11 +427,14 @@ def further_string_normalize(expr: str):
     if len(expr) > 0 and expr[0] == "{" and expr[-1] == "}" and _is_enclosed(expr):
         expr = expr[1:-1]
     
-    if _is_float(expr) and _is_int(float(expr)):
+    if _is_float(expr) and float(expr).is_integer():
         if re.search("e", expr):
             expr = float_to_latex_scientific(expr)
         else:
-            expr = str(int(round(float(expr))))
+            # not through float, which is exact up to 2^53 only
+            number = Decimal(expr)
+            if number == number.to_integral_value():
+                expr = "{:.0f}".format(number)
 
     if "\\" in expr:
         try:
@@ -462,7 +465,7 @@ def further_string_normalize(expr: str):
 
 def float_to_latex_scientific(expr: str) -> str:
     if _is_float(expr):
-        num = float(expr)
+        num = Decimal(expr)
         if num != 0:
             # float to sci num, x.xxxe+02
             sci_num = '{:e}'.format(num)
diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index d3aec7c..b24518c 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -4,7 +4,7 @@ import re
 import threading
 import sympy
 
-from tokenize import STRING
+from tokenize import NUMBER, STRING
 from typing import Tuple, Any, Dict, Optional
 
 from sympy.parsing.latex import parse_latex
@@ -52,6 +52,9 @@ def _refuse_code(tokens, local_dict, global_dict):
     for token_type, token in tokens:
         if token_type == STRING or token == "." or "__" in token:
             raise ValueError(f"The {token} is not mathematics.")
+        if token_type == NUMBER and re.search(r"[eE][+-]?[0-9_]{5,}", token):
+            # sympy writes out every digit
+            raise ValueError(f"The {token} is out of range.")
     return tokens
 
 
@@ -471,11 +474,16 @@ def _are_equal_latex_sympy(
             gv_type = _get_sympy_type(gv_latex_sympy)
         return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, gt_type, gv_type)
 
+    gt_exact, gv_exact = gt_latex_sympy, gv_latex_sympy
     if gt_latex_sympy.is_number:
         gt_latex_sympy = sympy_evalf(gt_latex_sympy)
     if gv_latex_sympy.is_number:
         gv_latex_sympy = sympy_evalf(gv_latex_sympy)
 
+    if gt_latex_sympy.is_Float and gv_latex_sympy.is_Float and abs(gt_latex_sympy) >= LARGE_NUMBER:
+        # the floats are not precise enough, evaluate the exact difference
+        return _diff_equal(gt_latex_sympy, sympy_evalf(gt_exact - gv_exact))
+
     # expand
     ltx_ltx_equal = False
     try:
-- 
2.43.0


From bfb6bb1be56476bf6c2368a87bc0561559735b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 25/71] fix: sums that cancel out match zero as ground truth
 too

---
 math_evaluation/core/latex_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index b24518c..619dc1d 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -275,7 +275,11 @@ def sympy_evalf(
 
     @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_evalf", seconds=TIMEOUT_SECONDS))
     def _sympy_evalf(sympy_expr, symbols_=None):
-        return sympy_expr.evalf(subs=symbols_)
+        value = sympy_expr.evalf(subs=symbols_)
+        if value.is_Float and value._prec == 1:
+            # no digit is significant, e.g., 0.e-125 for sqrt(8) - 2*sqrt(2)
+            return sympy.S.Zero
+        return value
         
     try:
         return _sympy_evalf(sympy_expr, symbols_)
-- 
2.43.0


From d5e4c4db0e92733083bb3ab5b74fe9175a2cb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 26/71] fix: blanks after a minus sign do not matter in front
 of a number in e-notation either

---
 math_evaluation/core/latex_normalize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 37a9f79..b332c85 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -426,6 +426,9 @@ def further_string_normalize(expr: str):
     """Normalize str expressions"""
     if len(expr) > 0 and expr[0] == "{" and expr[-1] == "}" and _is_enclosed(expr):
         expr = expr[1:-1]
+
+    # edge case with negative signs
+    expr = re.sub("- *", "-", expr)
     
     if _is_float(expr) and float(expr).is_integer():
         if re.search("e", expr):
@@ -442,9 +445,7 @@ def further_string_normalize(expr: str):
         except:
             pass
 
-    # edge case with mixed numbers and negative signs
-    expr = re.sub("- *", "-", expr)
-
+    # edge case with mixed numbers
     expr = _inject_implicit_mixed_number(expr)
 
     expr = expr.replace(" ", "")
-- 
2.43.0


From ee84c532e4187f40707ac34ccefb68c5fa1ed3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 27/71] fix: removing blanks from an answer does not glue a
 command to the next letter, or an exponent to the next number

---
 math_evaluation/core/latex_normalize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index b332c85..32e846c 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -448,7 +448,8 @@ def further_string_normalize(expr: str):
     # edge case with mixed numbers
     expr = _inject_implicit_mixed_number(expr)
 
-    expr = expr.replace(" ", "")
+    # spaces mean nothing, except at the end of a command or an exponent, e.g., \tan h, x^2 3
+    expr = re.sub(r"(\\[a-zA-Z]+ (?=[a-zA-Z])|[\^_]\d+ (?=\d))| ", r"\1", re.sub(" +", " ", expr))
 
     # don't be case sensitive for text answers
     # TODO: 
-- 
2.43.0


From 3c86b4a4403d78dfdab44d41567eade66e070c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 28/71] fix: interval end points in e-notation, and the same
 end point written in two ways

---
 math_evaluation/core/latex_normalize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 32e846c..38abf28 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -149,15 +149,20 @@ def _str_to_interval(x: str):
                 if and_interval[0] not in '([' or and_interval[-1] not in ')]':
                     raise Exception('Not an Interval')
                 int_start, int_end = _split_top_level(and_interval[1:-1])
+                if "e" in int_start:
+                    int_start = float_to_latex_scientific(int_start)
+                if "e" in int_end:
+                    int_end = float_to_latex_scientific(int_end)
                 int_start = latex2sympy(int_start)
                 int_end = latex2sympy(int_end)
                 # check validation
+                # rounded from more digits, since the last one of 3+4/7 is not the one of 25/7
                 if int_start.is_number:
-                    int_start = int_start.evalf()
+                    int_start = int_start.evalf(30).evalf()
                     if _is_int(int_start):
                         int_start = sympy.Integer(int_start)
                 if int_end.is_number:
-                    int_end = int_end.evalf()
+                    int_end = int_end.evalf(30).evalf()
                     if _is_int(int_end):
                         int_end = sympy.Integer(int_end)
                 if int_start.is_number and int_end.is_number and int_start > int_end:
-- 
2.43.0


From 7ba8609d75fd8790501924a7c9d53aa8efb4538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 29/71] fix: column specifications of arrays and an ended last
 row are not part of the entries

---
 math_evaluation/core/latex_normalize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 38abf28..19483ed 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -117,6 +117,8 @@ def _str_matrix_normalize(expr: str):
     if "{cases}" in expr:
         expr = expr.replace("{cases}", "{matrix}")
     if "{array}" in expr:
+        # the column specification is not part of the first entry
+        expr = re.sub(r"\\begin *\{array\} *\{[lcr| ]*\}", r"\\begin{array}", expr)
         expr = expr.replace("{array}", "{matrix}")
     if not (not "\\\\begin" in expr and "\\begin" in expr and "matrix" in expr):
         expr = expr.replace("\\\\", "\\")
@@ -587,6 +589,9 @@ def split_matrix(expr: str):
     elements = []
     if match:
         rows = match.group(1).split("\\\\")
+        if len(rows) > 1 and not rows[-1].strip():
+            # the last row may be ended as well
+            rows.pop()
         for row in rows:
             col = row.split("&")
             if len(col) == 1:
-- 
2.43.0


From 8fc767a32cc75f6071a1dd9a941d070948cb67fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 30/71] fix: vectors in delimiters match plain lists, and a
 matrix may begin with a mixed number

---
 math_evaluation/core/latex_normalize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 19483ed..cddf356 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -197,8 +197,8 @@ def _inject_implicit_mixed_number(expr: str):
     and the sum is in parentheses, since -7\\frac34 is -(7+\\frac34)
     """
     regex_cands = [
-        r"(?<![\d.^_}])(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) +(\d+/\d+)",                    
-        r"(?<![\d.^_}])(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
+        r"(?<![\d.^_])(?:(?<!})|(?<=matrix}))(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) +(\d+/\d+)",                    
+        r"(?<![\d.^_])(?:(?<!})|(?<=matrix}))(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
     ]
     for regex in regex_cands:
         pattern = re.compile(regex)
@@ -584,7 +584,8 @@ def split_matrix(expr: str):
             print("WARNING: mismatched dimensions. Won't parse.")
         return is_matrix
 
-    regex = r"^\\begin\{[a-zA-Z]?matrix\}(.*?)\\end\{[a-zA-Z]?matrix\}$"
+    # the delimiters may be written around the environment, e.g., (\\begin{matrix} a & b \\end{matrix})
+    regex = r"^[\(\[]?\\begin\{[a-zA-Z]?matrix\}(.*?)\\end\{[a-zA-Z]?matrix\}[\)\]]?$"
     match = re.search(regex, expr, re.DOTALL)
     elements = []
     if match:
-- 
2.43.0


From 6130d09f94c8083ec45583fb579a5ee33e4d5129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 31/71] fix: a definition matches an equation exactly when it
 is the same equation

---
 math_evaluation/core/latex_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 619dc1d..e237902 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -470,6 +470,12 @@ def _are_equal_latex_sympy(
             return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, ANSWER_TYPE_CPLX, ANSWER_TYPE_CPLX)
     
     if gt_type == ANSWER_TYPE_FUNC or gv_type == ANSWER_TYPE_FUNC:
+        if isinstance(gt_latex_sympy, Equality) and isinstance(gv_latex_sympy, Equality):
+            # y = 2x + 3 is an equation as well, e.g., y - 2x = 3 or 2x + 3 = y
+            if _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, ANSWER_TYPE_EQUL, ANSWER_TYPE_EQUL):
+                return True
+            if gt_type != gv_type:
+                return False
         if isinstance(gt_latex_sympy, Equality):
             gt_latex_sympy = gt_latex_sympy.rhs
             gt_type = _get_sympy_type(gt_latex_sympy)
-- 
2.43.0


From d73cc099c614de762c75f0f1db0aa6d13208032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 32/71] fix: relations written with \lt, \gt, <= or >= match
 the same relation written otherwise

---
 math_evaluation/core/latex_parser.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index e237902..7323b50 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -58,6 +58,21 @@ def _refuse_code(tokens, local_dict, global_dict):
     return tokens
 
 
+# other spellings of relations, and how `latex2sympy` writes them
+RELATION_REGEXES = [
+    (r"\\lt(?![a-zA-Z])", "<"),
+    (r"\\gt(?![a-zA-Z])", ">"),
+    (r"<=", r"\\le "),
+    (r">=", r"\\ge "),
+]
+
+
+def _relation_normalize(expr: str) -> str:
+    for regex, relation in RELATION_REGEXES:
+        expr = re.sub(regex, relation, expr)
+    return expr
+
+
 def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     """Parses an latex expression with sympy
 
@@ -78,7 +93,7 @@ def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     
     """
     try:
-        l2s_expr = latex2sympy(expr)
+        l2s_expr = latex2sympy(_relation_normalize(expr))
     except:
         l2s_expr = None
 
-- 
2.43.0


From 68293926d93ec0e4ef951ce6cc94360c711b98a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 33/71] fix: a control space between a number and its unit is a
 blank

---
 math_evaluation/core/latex_normalize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index cddf356..a73bc0d 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -304,6 +304,7 @@ def _string_normalize(expr: str):
     expr = re.sub(r"\\,", "", expr)
     expr = re.sub(r"\\;", "", expr)
     expr = re.sub(r"\\!", "", expr)
+    expr = re.sub(r"(?<!\\)\\ ", " ", expr)     # control space, not the end of a row and a space
 
     # "{,}" -> ","
     expr = re.sub(r"\{,\}", ",", expr)
-- 
2.43.0


From f508019f1a02c933a97e1c97841059315c5b6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 34/71] fix: dollar signs around percentages, digits with a
 base, times and text wrappers are ignored as around other answers

---
 math_evaluation/core/latex_normalize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index a73bc0d..1d1e6b6 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -284,6 +284,11 @@ def _string_normalize(expr: str):
     # remove leading and trailing space
     expr = expr.strip(" ")
 
+    # Remove enclosing $...$
+    m = re.search(r"^\$\$?(?P<math>[^$]*[^$\\])\$\$?$", expr, re.DOTALL)
+    if m:
+        return string_normalize(m.group("math"))
+
     # latex matrix has \\\\ which cannot be replaced, e.g., \\begin{matrix} 1 & 2 \\\\ 3 & 4 \\end{matrix}
     expr = _str_matrix_normalize(expr)
 
-- 
2.43.0


From 8a167d6f4c62333945c2bbedcea81e7f49de6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 35/71] fix: a percentage with a fraction or the word percent
 matches its value

---
 math_evaluation/core/latex_normalize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 1d1e6b6..8ac123a 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -329,6 +329,7 @@ def _string_normalize(expr: str):
 
     # Remove \\% and transform to two possible values for ground truth
     # comparable grd v.s. prd: 10% v.s. 10.0%, 10% v.s. 0.1, 10% v.s. 10
+    expr = re.sub(r" *(\\text\{ *percent *\}|percent\b)", "%", expr)
     if "%" in expr:
         expr = expr.replace("\\%", "%")
         expr = expr.replace("%", "")
@@ -338,6 +339,11 @@ def _string_normalize(expr: str):
                 str(float(number) / 100), 
                 str(float(number)),
             }
+        if re.search(r"^-? *(\d+ *)?\\[dt]?frac *(\{ *\d+ *\}|\d) *(\{ *\d+ *\}|\d)$|^-? *(\d+ +)?\d+ */ *\d+$", expr.strip()):
+            return {
+                further_string_normalize(f"({expr.strip()})/100"),
+                further_string_normalize(expr.strip()),
+            }
 
     # Remove $
     expr = expr.replace("\\$", "$")
-- 
2.43.0


From e2128b6f75454cf3cc69b7c1a477cf5d718d55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 36/71] fix: \degree and the degree sign are read as ^\circ

---
 math_evaluation/core/latex_normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 8ac123a..a607959 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -345,6 +345,9 @@ def _string_normalize(expr: str):
                 further_string_normalize(expr.strip()),
             }
 
+    # other spellings of ^\\circ
+    expr = re.sub(r" *(\\degree(?![a-zA-Z])|°)", r"^{\\circ}", expr)
+
     # Remove $
     expr = expr.replace("\\$", "$")
     expr = expr.replace("$", "")
-- 
2.43.0


From 202c209b67cb6e2e1ffdb2a725ab43c635ec31c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 37/71] fix: an upright i is the imaginary unit as well

---
 math_evaluation/core/latex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 7323b50..14626a8 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -228,7 +228,7 @@ def expr_with_only_i(latex_sympy):
     is_cplx = False
     if len(latex_sympy.free_symbols) == 1:
         unknown_var = latex_sympy.free_symbols.pop()
-        if unknown_var.name == "i":
+        if unknown_var.name in {"i", "\\mathrm{i}"}:
             latex_sympy = latex_sympy.subs(unknown_var, I)
             is_cplx = True
     return latex_sympy, is_cplx
-- 
2.43.0


From a9a64adb6f656e2e77f46d2c404ca3e36cebab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 38/71] fix: complex parts which sympy writes with I are
 compared, not split forever

---
 math_evaluation/core/latex_parser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 14626a8..b20d86e 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -471,12 +471,9 @@ def _are_equal_latex_sympy(
         gt_im = sympy.im(gt_latex_sympy)
         gv_re = sympy.re(gv_latex_sympy)
         gv_im = sympy.im(gv_latex_sympy)
-        gt_re_type = _get_sympy_type(gt_re)
-        gt_im_type = _get_sympy_type(gt_im)
-        gv_re_type = _get_sympy_type(gv_re)
-        gv_im_type = _get_sympy_type(gv_im)
-        return _are_equal_latex_sympy(gt_re, gv_re, gt_re_type, gv_re_type) \
-            and _are_equal_latex_sympy(gt_im, gv_im, gt_im_type, gv_im_type)
+        # the parts are real, even if they are written with I, e.g., -I*(1 - I)**2
+        return _are_equal_latex_sympy(gt_re, gv_re, ANSWER_TYPE_EXPR, ANSWER_TYPE_EXPR) \
+            and _are_equal_latex_sympy(gt_im, gv_im, ANSWER_TYPE_EXPR, ANSWER_TYPE_EXPR)
 
     if gt_type == gv_type == ANSWER_TYPE_EXPR:
         gt_latex_sympy, gt_is_cplx = expr_with_only_i(gt_latex_sympy)
-- 
2.43.0


From 43e6fdcc2331fea83c58c6ae516aa85128b03ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 39/71] fix: reading an answer like 9^9^9 has the same time
 limit as the other steps

---
 math_evaluation/core/latex_parser.py | 31 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index b20d86e..ef1a8f7 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -58,6 +58,22 @@ def _refuse_code(tokens, local_dict, global_dict):
     return tokens
 
 
+def timeout(*args, **kwargs):
+    """The alarm of `timeout_decorator` exists in the main thread only, other threads run without limit"""
+    if threading.current_thread() is threading.main_thread():
+        return timeout_decorator.timeout(*args, **kwargs)
+    return lambda func: func
+
+
+def call_parser(parser, expr: str, **kwargs):
+
+    @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="call_parser", seconds=TIMEOUT_SECONDS))
+    def _call_parser(expr):
+        return parser(expr, **kwargs)
+
+    return _call_parser(expr)
+
+
 # other spellings of relations, and how `latex2sympy` writes them
 RELATION_REGEXES = [
     (r"\\lt(?![a-zA-Z])", "<"),
@@ -93,20 +109,22 @@ def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     
     """
     try:
-        l2s_expr = latex2sympy(_relation_normalize(expr))
+        l2s_expr = call_parser(latex2sympy, _relation_normalize(expr))
     except:
         l2s_expr = None
 
     sp_expr = None
     if l2s_expr is None:
         try:
-            sp_expr = parse_latex(expr).subs({Symbol('pi'): pi})
+            sp_expr = call_parser(parse_latex, expr).subs({Symbol('pi'): pi})
         except:
             pass
     
     py_expr = expr.replace("^", "**")
     try:
-        sp_or_py_expr = sympy_parser.parse_expr(
+        # numbers are evaluated here, e.g., 9**9**9
+        sp_or_py_expr = call_parser(
+            sympy_parser.parse_expr,
             py_expr,
             global_dict=dict(MATH_NAMESPACE),
             transformations=(
@@ -234,13 +252,6 @@ def expr_with_only_i(latex_sympy):
     return latex_sympy, is_cplx
 
 
-def timeout(*args, **kwargs):
-    """The alarm of `timeout_decorator` exists in the main thread only, other threads run without limit"""
-    if threading.current_thread() is threading.main_thread():
-        return timeout_decorator.timeout(*args, **kwargs)
-    return lambda func: func
-
-
 def sympy_simplify(sympy_expr: Expr):
 
     @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_simplify", seconds=TIMEOUT_SECONDS))
-- 
2.43.0


From e83e4b538d55b993f278ff149e76fe1cacfcb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 40/71] fix: a blank prediction matches no answer, also not one
 that is normalised to nothing

---
 math_evaluation/core/evaluations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index e1311c0..efdc545 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -25,6 +25,9 @@ def is_equiv(ground_truth: str, given: str, verbose: bool = False):
     str_pass = ground_truth.strip() == given.strip()
     if str_pass:
         return True
+    if not ground_truth.strip() or not given.strip():
+        # e.g., no answer is not the empty set \\{\\}
+        return False
     
     ground_truth_normalized = string_normalize(ground_truth)
     given_normalized = string_normalize(given)
-- 
2.43.0


From d849a7c917a4f2920eb0e3fbed13dca18ffdcaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 41/71] fix: splitting into real and imaginary part and
 replacing pi have the same time limit as the other steps

---
 math_evaluation/core/latex_parser.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index ef1a8f7..00fcece 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -116,7 +116,7 @@ def _sympy_parse(expr: str) -> Tuple[Any, Any]:
     sp_expr = None
     if l2s_expr is None:
         try:
-            sp_expr = call_parser(parse_latex, expr).subs({Symbol('pi'): pi})
+            sp_expr = call_parser(lambda expr: parse_latex(expr).subs({Symbol('pi'): pi}), expr)
         except:
             pass
     
@@ -294,6 +294,19 @@ def sympy_abs(sympy_expr: Expr):
         raise RuntimeError
 
 
+def sympy_re_im(sympy_expr: Expr) -> Tuple[Expr, Expr]:
+
+    @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_re_im", seconds=TIMEOUT_SECONDS))
+    def _sympy_re_im(sympy_expr):
+        return sympy.re(sympy_expr), sympy.im(sympy_expr)
+
+    try:
+        return _sympy_re_im(sympy_expr)
+    except Exception as e:
+        print(("{}: {}".format(type(e).__name__, str(e))))
+        raise RuntimeError
+
+
 def sympy_evalf(
     sympy_expr: Expr, 
     symbols_: Optional[Dict[Symbol, float]] = None,
@@ -478,10 +491,8 @@ def _are_equal_latex_sympy(
                 return False
 
     if gt_type == gv_type == ANSWER_TYPE_CPLX:
-        gt_re = sympy.re(gt_latex_sympy)
-        gt_im = sympy.im(gt_latex_sympy)
-        gv_re = sympy.re(gv_latex_sympy)
-        gv_im = sympy.im(gv_latex_sympy)
+        gt_re, gt_im = sympy_re_im(gt_latex_sympy)
+        gv_re, gv_im = sympy_re_im(gv_latex_sympy)
         # the parts are real, even if they are written with I, e.g., -I*(1 - I)**2
         return _are_equal_latex_sympy(gt_re, gv_re, ANSWER_TYPE_EXPR, ANSWER_TYPE_EXPR) \
             and _are_equal_latex_sympy(gt_im, gv_im, ANSWER_TYPE_EXPR, ANSWER_TYPE_EXPR)
-- 
2.43.0


From bf111325e8cc9dd2f4ed9f03a1df59c90e0d7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 42/71] fix: a blank prediction matches no answer of type
 Function either

---
 math_evaluation/core/type_evaluations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index cc07cbb..8f6c7d9 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -158,8 +158,8 @@ def is_equiv_type(
         # 'Others': is_equiv,
     }
     is_equal = False
-    if ground_truth is None or prediction is None or answer_type is None:
-        # a missing answer has no type, and without a type there is nothing to add to `is_equiv`
+    if not (ground_truth and ground_truth.strip()) or not (prediction and prediction.strip()) or answer_type is None:
+        # a missing or blank answer has no type, and without a type there is nothing to add to `is_equiv`
         return is_equiv(ground_truth, prediction, verbose)
 
     for type_name, check_func in equiv_checks.items():
-- 
2.43.0


From 8542ca563645bd952f651b4fd3bcaaf78f20e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 43/71] fix: two answers with base, percent, am/pm or degree
 sign match only by the values they denote

---
 math_evaluation/core/evaluations.py     | 10 ++-
 math_evaluation/core/latex_normalize.py | 87 +++++++++++--------------
 2 files changed, 48 insertions(+), 49 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index efdc545..caf450a 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -1,6 +1,7 @@
 from typing import Optional, Tuple
 
 from .latex_normalize import (
+    Readings,
     string_normalize,
     split_tuple,
     split_matrix,
@@ -41,7 +42,14 @@ def is_equiv(ground_truth: str, given: str, verbose: bool = False):
 
     try:
         # e.g., gt = 30^\\circ -> {30, pi/6}, gv = pi/6
-        if isinstance(ground_truth_normalized, set) or isinstance(given_normalized, set):
+        if isinstance(ground_truth_normalized, Readings) and isinstance(given_normalized, Readings) \
+                and ground_truth_normalized.kind == given_normalized.kind:
+            # e.g., 25_6 and 25_7, 10\\% and 0.1\\%
+            return any(
+                is_latex_equiv(gt_norm, gv_norm, verbose=verbose)
+                for gt_norm, gv_norm in zip(ground_truth_normalized.exact, given_normalized.exact)
+            )
+        elif isinstance(ground_truth_normalized, set) or isinstance(given_normalized, set):
             if isinstance(ground_truth_normalized, str):
                 ground_truth_normalized = {ground_truth_normalized}
             if isinstance(given_normalized, str):
diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index a607959..44c79d3 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -206,6 +206,20 @@ def _inject_implicit_mixed_number(expr: str):
     return expr
 
 
+class Readings(set):
+    """
+    All values which an answer with base, percent sign, am/pm or degree sign may stand for,
+        because the other answer may be written without it.
+    
+    If the other answer is of the same kind, only `exact` values are comparable, e.g.,
+        25_6 -> {25, 17}, but 25_7 -> {25, 19}
+    """
+    def __init__(self, kind: str, values, exact):
+        super().__init__(values)
+        self.kind = kind
+        self.exact = exact
+
+
 def _str_to_decimal(digits: str, base: str):
     tot = 0
     base = int(base)
@@ -219,19 +233,20 @@ def _strip_properly_formatted_commas(expr: str):
     return expr
 
 
+def _meridiem_hours(hour: str, meridiem: str):
+    """8 am -> [8], 8 pm -> [8, 20], 12 am and 12 pm -> [0, 12], and its hour from 0 to 23"""
+    hour, is_pm = int(hour), "p" in meridiem.lower()
+    hours = [hour % 12, hour % 12 + 12] if is_pm or hour == 12 else [hour]
+    return [str(h) for h in hours], str(hour % 12 + 12 if is_pm else hour % 12 if hour == 12 else hour)
+
+
 def _str_to_time_list(expr: str):
     # case 1: am/pm is must, when only hour, 2 am, 2\\text{am}
     regex = r"^(\d{1,2})\s*((?:\\text\{\s*[ap]\.?m\.?\s*\})|(?:[ap]\.?m\.?))$"
     match = re.search(regex, expr, re.IGNORECASE)
     if match:
-        hour, meridiem = match.group(1, 2)
-        # 12 am is 0 o'clock
-        if "p.m." in meridiem.lower() or "pm" in meridiem.lower() or int(hour) == 12:
-            hour = {
-                str(int(hour) % 12),
-                str(int(hour) % 12 + 12),
-            }
-        return hour
+        hours, exact = _meridiem_hours(match.group(1), match.group(2).replace("\\text", ""))
+        return Readings("time", hours, [exact])
 
     # case 2: am/pm is optional, but : is must, e.g., 20:00, 8:00pm
     regex = r"^(\d{1,2}):(\d{2})(?::(\d{2}))?\s*((?:\\text\{\s*[ap]\.?m\.?\s*\})|(?:[ap]\.?m\.?))?$"
@@ -239,32 +254,17 @@ def _str_to_time_list(expr: str):
     if match:
         hour, minute, second, meridiem = match.group(1, 2, 3, 4)
         # second and meridem could be None
-        # 12 am is 0 o'clock
-        if meridiem and ("p.m." in meridiem.lower() or "pm" in meridiem.lower() or int(hour) == 12):
-            hour = [
-                str(int(hour) % 12),
-                str(int(hour) % 12 + 12),
-            ]
         if second and int(second) != 0:
-            if isinstance(hour, list):
-                return {
-                    f"[{hour[0]}, {int(minute)}, {int(second)}]",
-                    f"[{hour[1]}, {int(minute)}, {int(second)}]",
-                }
-            return f"[{int(hour)}, {int(minute)}, {int(second)}]"
-        else:
+            time = "[{{}}, {}, {}]".format(int(minute), int(second))
+        elif int(minute) != 0:
             # only consider hour and minute
-            if int(minute) == 0:
-                if isinstance(hour, list):
-                    return set(hour)
-                return str(int(hour))
-            else:
-                if isinstance(hour, list):
-                    return {
-                        f"[{hour[0]}, {int(minute)}]",
-                        f"[{hour[1]}, {int(minute)}]",
-                    }
-                return f"[{int(hour)}, {int(minute)}]"
+            time = "[{{}}, {}]".format(int(minute))
+        else:
+            time = "{}"
+        if not meridiem:
+            return time.format(int(hour))
+        hours, exact = _meridiem_hours(hour, meridiem.replace("\\text", ""))
+        return Readings("time", [time.format(h) for h in hours], [time.format(exact)])
 
     return expr
 
@@ -322,10 +322,7 @@ def _string_normalize(expr: str):
         # return f"[{digits}, {base}]"
         # sometimes the answer may not have "_base", we adopt the following logic.
         decimal_digits = _str_to_decimal(digits, base)
-        return {
-            digits,
-            str(decimal_digits),
-        }
+        return Readings("base", [digits, str(decimal_digits)], [str(decimal_digits)])
 
     # Remove \\% and transform to two possible values for ground truth
     # comparable grd v.s. prd: 10% v.s. 10.0%, 10% v.s. 0.1, 10% v.s. 10
@@ -335,15 +332,11 @@ def _string_normalize(expr: str):
         expr = expr.replace("%", "")
         number = _strip_properly_formatted_commas(expr)
         if _is_float(number):
-            return {
-                str(float(number) / 100), 
-                str(float(number)),
-            }
+            readings = [str(float(number) / 100), str(float(number))]
+            return Readings("percent", readings, readings)
         if re.search(r"^-? *(\d+ *)?\\[dt]?frac *(\{ *\d+ *\}|\d) *(\{ *\d+ *\}|\d)$|^-? *(\d+ +)?\d+ */ *\d+$", expr.strip()):
-            return {
-                further_string_normalize(f"({expr.strip()})/100"),
-                further_string_normalize(expr.strip()),
-            }
+            readings = [further_string_normalize(f"({expr.strip()})/100"), further_string_normalize(expr.strip())]
+            return Readings("percent", readings, readings)
 
     # other spellings of ^\\circ
     expr = re.sub(r" *(\\degree(?![a-zA-Z])|°)", r"^{\\circ}", expr)
@@ -425,10 +418,8 @@ def _string_normalize(expr: str):
         regex = r"(\d*)(\.\d+)? *\^ *(?:\{ *\\circ *\}|\\circ)"
         pattern = re.compile(regex)
         expr2 = pattern.sub(r"\1\2/180*\\pi", expr)
-        return {
-            further_string_normalize(expr1),
-            further_string_normalize(expr2),
-        }
+        readings = [further_string_normalize(expr1), further_string_normalize(expr2)]
+        return Readings("degree", readings, readings)
 
     return further_string_normalize(expr)
 
-- 
2.43.0


From 2278f02b70073b95ab03dfb1d092512c3a28e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 44/71] fix: remove leading and trailing newlines of answers

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 44c79d3..a68f5ba 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -282,7 +282,7 @@ def _string_normalize(expr: str):
         return None
     
     # remove leading and trailing space
-    expr = expr.strip(" ")
+    expr = expr.strip(" \n")
 
     # Remove enclosing $...$
     m = re.search(r"^\$\$?(?P<math>[^$]*[^$\\])\$\$?$", expr, re.DOTALL)
-- 
2.43.0


From 527bbc166b601efec64b867229e86bae8bda3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 45/71] fix: mixed numbers with spaces inside of the fraction

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index a68f5ba..e61c272 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -198,7 +198,7 @@ def _inject_implicit_mixed_number(expr: str):
     """
     regex_cands = [
         r"(?<![\d.^_])(?:(?<!})|(?<=matrix}))(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) +(\d+/\d+)",                    
-        r"(?<![\d.^_])(?:(?<!})|(?<=matrix}))(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
+        r"(?<![\d.^_])(?:(?<!})|(?<=matrix}))(?<!frac)(?<!sqrt)(\d{1,3}(?:,\d{3})+|\d+) *(\\frac *(\d|{ *\d+ *}) *(\d|{ *\d+ *}))",  
     ]
     for regex in regex_cands:
         pattern = re.compile(regex)
-- 
2.43.0


From 5b94150e4a6d4e9ef6df3aca6bdbb290b2ec35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 46/71] fix: answers with the same normalized readings are
 equal

---
 math_evaluation/core/evaluations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index caf450a..a1d38e9 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -46,7 +46,7 @@ def is_equiv(ground_truth: str, given: str, verbose: bool = False):
                 and ground_truth_normalized.kind == given_normalized.kind:
             # e.g., 25_6 and 25_7, 10\\% and 0.1\\%
             return any(
-                is_latex_equiv(gt_norm, gv_norm, verbose=verbose)
+                gt_norm == gv_norm or is_latex_equiv(gt_norm, gv_norm, verbose=verbose)
                 for gt_norm, gv_norm in zip(ground_truth_normalized.exact, given_normalized.exact)
             )
         elif isinstance(ground_truth_normalized, set) or isinstance(given_normalized, set):
@@ -56,7 +56,7 @@ def is_equiv(ground_truth: str, given: str, verbose: bool = False):
                 given_normalized = {given_normalized}
             for gt_norm in ground_truth_normalized:
                 for gv_norm in given_normalized:
-                    if is_latex_equiv(gt_norm, gv_norm, verbose=verbose):
+                    if gt_norm == gv_norm or is_latex_equiv(gt_norm, gv_norm, verbose=verbose):
                         return True
             return False
         else:
-- 
2.43.0


From 4861441594f98d4abb706e5b1047d5f2e8a4063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 47/71] fix: an escaped dollar sign in an answer is kept when
 its type is asked for

---
 math_evaluation/llms/llm_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/llms/llm_models.py b/math_evaluation/llms/llm_models.py
index 476f6c6..0d57841 100644
--- a/math_evaluation/llms/llm_models.py
+++ b/math_evaluation/llms/llm_models.py
@@ -50,8 +50,8 @@ def get_llm_type(
     max_try: int = 5,
 ) -> Optional[str]:
     # format answer
-    if not (answer.startswith("$") and answer.endswith("$") and answer.count("$") == 2):
-        answer = "${ans}$".format(ans=answer.replace("$", ""))
+    # an escaped \$ is a dollar sign, not a delimiter
+    answer = "${ans}$".format(ans=re.sub(r"(?<!\\)\$", "", answer))
 
     # select prompt_template
     if prompt_type == 1:
-- 
2.43.0


From 0eb6260dc6134e8c25be64aede4d5ad05f65a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 48/71] fix: elementary row and column operations over an arrow

---
 latex2sympy/latex2sympy2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index b0b8456..11c41b5 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -209,7 +209,7 @@ def convert_elementary_transform(matrix, transform):
         transform_scale = transform.transform_scale()
         transform_atom = transform_scale.transform_atom()
         k = None
-        num = int(transform_atom.NUMBER().getText()) - 1
+        num = int(transform_atom.number().getText()) - 1
         if transform_scale.expr():
             k = convert_expr(transform_scale.expr())
         elif transform_scale.group():
@@ -228,8 +228,8 @@ def convert_elementary_transform(matrix, transform):
     elif transform.transform_swap():
         first_atom = transform.transform_swap().transform_atom()[0]
         second_atom = transform.transform_swap().transform_atom()[1]
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
@@ -252,8 +252,8 @@ def convert_elementary_transform(matrix, transform):
             k = -1
         else:
             k = 1
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
-- 
2.43.0


From 9533e75e9dff28456c3bec255e941eeae764fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 49/71] fix: partial derivatives with respect to Greek letters
 and indexed variables

---
 latex2sympy/latex2sympy2.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 11c41b5..8429d7f 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -778,14 +778,18 @@ def convert_frac(frac):
                 frac.lower.start.type == PSLexer.DIFFERENTIAL):
             wrt = get_differential_var_str(frac.lower.start.text)
             diff_op = True
-        elif (lower_itv_len == 2 and
+        elif (lower_itv_len >= 2 and
               frac.lower.start.type == PSLexer.SYMBOL and
-              frac.lower.start.text == '\\partial' and
-              (frac.lower.stop.type == PSLexer.LETTER_NO_E or frac.lower.stop.type == PSLexer.SYMBOL)):
-            partial_op = True
-            wrt = frac.lower.stop.text
-            if frac.lower.stop.type == PSLexer.SYMBOL:
-                wrt = wrt[1:]
+              frac.lower.start.text == '\\partial'):
+            # a letter or Greek letter, maybe with an index
+            lower_text = rule2text(frac.lower)[len("\\partial"):]
+            match = re.match(r"\s*\\?([a-zA-Z]+)\s*(_\s*(\w|{\s*\w+\s*}))?\s*$", lower_text)
+            if match:
+                partial_op = True
+                subscript = match.group(3).strip("{} \t\r\n") if match.group(3) else ''
+                if len(subscript) > 1:
+                    subscript = '{' + subscript + '}'
+                wrt = match.group(1) + ('_' + subscript if subscript else '')
 
         if diff_op or partial_op:
             wrt = sympy.Symbol(wrt, real=is_real)
-- 
2.43.0


From 7a218191070da8a3f374fdfe89618dd7c3dc089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 50/71] fix: the differential in an integrand is not mistaken
 for a symbol like \delta

---
 latex2sympy/latex2sympy2.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 8429d7f..de9c5e0 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1032,13 +1032,12 @@ def handle_integral(func):
     if func.DIFFERENTIAL():
         int_var = get_differential_var(func.DIFFERENTIAL())
     else:
-        for sym in integrand.atoms(sympy.Symbol):
-            s = str(sym)
-            if len(s) > 1 and s[0] == 'd':
-                if s[1] == '\\':
-                    int_var = sympy.Symbol(s[2:], real=is_real)
-                else:
-                    int_var = sympy.Symbol(s[1:], real=is_real)
+        # the differential is part of the integrand, e.g., \int \frac{dx}{x}
+        for differential in get_differentials(func.frac() or func.additive()):
+            differential_var = get_differential_var(differential)
+            sym = sympy.Symbol('d' + differential_var.name, real=is_real)
+            if sym in integrand.atoms(sympy.Symbol):
+                int_var = differential_var
                 int_sym = sym
         if int_var:
             integrand = integrand.subs(int_sym, 1)
@@ -1138,6 +1137,19 @@ def handle_ceil(expr):
     return sympy.functions.ceiling(expr, evaluate=False)
 
 
+def get_differentials(ctx):
+    """
+    Return the differentials written in a part of the parse tree, from left to right
+    """
+    if ctx.getChildCount() == 0:
+        symbol = getattr(ctx, 'symbol', None)
+        return [ctx] if symbol is not None and symbol.type == PSLexer.DIFFERENTIAL else []
+    differentials = []
+    for child in ctx.getChildren():
+        differentials += get_differentials(child)
+    return differentials
+
+
 def get_differential_var(d):
     text = get_differential_var_str(d.getText())
     return sympy.Symbol(text, real=is_real)
-- 
2.43.0


From f14e9e5b3d0de716c8f6ac2d74939fb50c8bba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 51/71] fix: the derivative of zero in quotient notation

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index de9c5e0..6cb33fe 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -808,7 +808,7 @@ def convert_frac(frac):
                 expr_top = latex2sympy(upper_text[1:], VARIABLE_VALUES)
             elif partial_op and frac.upper.start.text == '\\partial':
                 expr_top = latex2sympy(upper_text[len("\\partial"):], VARIABLE_VALUES)
-            if expr_top:
+            if expr_top is not None:
                 return sympy.Derivative(expr_top, wrt)
 
     if frac.upper:
-- 
2.43.0


From 623491ba07dc785e9ced253c360d2348dc7c53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 52/71] fix: declaring variables does not modify the dictionary
 passed in

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 6cb33fe..4aac714 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -36,7 +36,7 @@ def set_real(value):
 
 def set_variances(vars):
     global variances
-    variances = vars
+    variances = dict(vars)  # the parser adds matrix symbols
     global var
     var = {}
     for variance in vars:
-- 
2.43.0


From d6888f3bf64a501b6e3abb752f8b5fbd2af55fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 53/71] fix: the negative of a scalar multiple or product of
 matrices

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 4aac714..dc6d055 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -356,7 +356,7 @@ def mat_mul_flat(lh, rh):
             args = args + list(rh.args)
         else:
             args += [rh]
-        return sympy.MatMul(*[arg.doit() for arg in args], evaluate=False)
+        return sympy.MatMul(*[sympy.sympify(arg).doit() for arg in args], evaluate=False)
     else:
         if hasattr(lh, 'doit') and hasattr(rh, 'doit'):
             return sympy.MatMul(lh.doit(), rh.doit(), evaluate=False)
-- 
2.43.0


From fccc70e2a8a0a09e8db8ca1393665bb326830c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 54/71] fix: a power of a matrix is a matrix

---
 latex2sympy/latex2sympy2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index dc6d055..90bc317 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -561,6 +561,8 @@ def convert_exp(exp):
             exponent = convert_atom(exp.atom())
         elif exp.expr():
             exponent = convert_expr(exp.expr())
+        if base.is_Matrix:
+            return sympy.MatPow(base, exponent)
         return sympy.Pow(base, exponent, evaluate=False)
     else:
         if hasattr(exp, 'comp'):
-- 
2.43.0


From a5e8b59207b8f69ba0ee7152f0eb247847b99cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 55/71] fix: matrix operators accept matrix expressions such as
 2A and A+B

---
 latex2sympy/latex2sympy2.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 90bc317..3c2fd33 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -575,7 +575,7 @@ def convert_comp(comp):
     if comp.group():
         return convert_expr(comp.group().expr())
     elif comp.norm_group():
-        return convert_expr(comp.norm_group().expr()).norm()
+        return get_explicit_matrix(convert_expr(comp.norm_group().expr())).norm()
     elif comp.abs_group():
         return sympy.Abs(convert_expr(comp.abs_group().expr()), evaluate=False)
     elif comp.floor_group():
@@ -833,6 +833,15 @@ def convert_binom(binom):
     return sympy.binomial(expr_top, expr_bot)
 
 
+def get_explicit_matrix(arg):
+    """
+    Evaluate a matrix expression, e.g., 2A or A+B, as operators like rank need the matrix itself
+    """
+    if isinstance(arg, sympy.MatrixExpr) and not isinstance(arg, sympy.MatrixBase):
+        return arg.subs(variances).doit().as_explicit()
+    return arg
+
+
 def convert_func(func):
     if func.func_normal_single_arg():
         if func.L_PAREN():  # function called with parenthesis
@@ -869,27 +878,29 @@ def convert_func(func):
             elif operatorname == 'eye':
                 expr = sympy.eye(arg)
             elif operatorname == 'rank':
-                expr = sympy.Integer(arg.rank())
+                expr = sympy.Integer(get_explicit_matrix(arg).rank())
             elif operatorname in ['trace', 'tr']:
-                expr = arg.trace()
+                expr = get_explicit_matrix(arg).trace()
             elif operatorname == 'rref':
-                expr = arg.rref()[0]
+                expr = get_explicit_matrix(arg).rref()[0]
             elif operatorname == 'nullspace':
-                expr = arg.nullspace()
+                expr = get_explicit_matrix(arg).nullspace()
             elif operatorname == 'norm':
-                expr = arg.norm()
+                expr = get_explicit_matrix(arg).norm()
             elif operatorname == 'cols':
+                arg = get_explicit_matrix(arg)
                 expr = [arg.col(i) for i in range(arg.cols)]
             elif operatorname == 'rows':
+                arg = get_explicit_matrix(arg)
                 expr = [arg.row(i) for i in range(arg.rows)]
             elif operatorname in ['eig', 'eigen', 'diagonalize']:
-                expr = arg.diagonalize()
+                expr = get_explicit_matrix(arg).diagonalize()
             elif operatorname in ['eigenvals', 'eigenvalues']:
-                expr = arg.eigenvals()
+                expr = get_explicit_matrix(arg).eigenvals()
             elif operatorname in ['eigenvects', 'eigenvectors']:
-                expr = arg.eigenvects()
+                expr = get_explicit_matrix(arg).eigenvects()
             elif operatorname in ['svd', 'SVD']:
-                expr = arg.singular_value_decomposition()
+                expr = get_explicit_matrix(arg).singular_value_decomposition()
         elif name in ["log", "ln"]:
             if func.subexpr():
                 if func.subexpr().atom():
@@ -908,7 +919,7 @@ def convert_func(func):
         elif name == "ceil":
             expr = handle_ceil(arg)
         elif name == 'det':
-            expr = arg.det()
+            expr = get_explicit_matrix(arg).det()
 
         func_pow = None
         should_pow = True
@@ -935,7 +946,7 @@ def convert_func(func):
         else:
             args = func.func_multi_arg_noparens().split(",")
 
-        args = list(map(lambda arg: latex2sympy(arg, VARIABLE_VALUES), args))
+        args = list(map(lambda arg: get_explicit_matrix(latex2sympy(arg, VARIABLE_VALUES)), args))
         name = func.func_normal_multi_arg().start.text[1:]
 
         if name == "operatorname":
-- 
2.43.0


From 5058c4841a9e4f87228f9f9b38d71d367551dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 56/71] fix: a power of a declared matrix can be added to other
 matrices

---
 latex2sympy/latex2sympy2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 3c2fd33..a99dc5e 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -670,6 +670,8 @@ def convert_atom(atom):
                 func_pow = convert_expr(supexpr.expr())
             else:
                 func_pow = convert_atom(supexpr.atom())
+            if matrix_symbol:
+                return sympy.MatPow(matrix_symbol, func_pow)
             return sympy.Pow(atom_symbol, func_pow, evaluate=False)
 
         return atom_symbol if not matrix_symbol else matrix_symbol
-- 
2.43.0


From ea9eafb7d44970b39d6a4cadbdd06bdfdb4b71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 57/71] fix: text left over after a complete expression is an
 error

---
 latex2sympy/latex2sympy2.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index a99dc5e..b91c2c0 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1,7 +1,7 @@
 import sympy
 import re
 from sympy import matrix_symbols, simplify, factor, expand, apart, expand_trig
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, Token
 from antlr4.error.ErrorListener import ErrorListener
 
 try:
@@ -97,6 +97,12 @@ def latex2sympy(sympy: str, variable_values={}):
     # process the input
     return_data = None
     math = parser.math()
+    # nothing but closing brackets may be left over
+    while tokens.LT(1).type in CLOSING:
+        tokens.consume()
+    if tokens.LT(1).type != Token.EOF:
+        rest = tokens.LT(1)
+        matherror.syntaxError(parser, rest, rest.line, rest.column, "extraneous input " + rest.text, None)
 
     # if a list
     if math.relation_list():
@@ -116,6 +122,9 @@ def latex2sympy(sympy: str, variable_values={}):
     return return_data
 
 
+CLOSING = (PSLexer.R_PAREN, PSLexer.R_BRACKET, PSLexer.R_BRACE, PSLexer.R_BRACE_VISUAL)
+
+
 class MathErrorListener(ErrorListener):
     def __init__(self, src):
         super(ErrorListener, self).__init__()
-- 
2.43.0


From c2bb2492436dd28c97b5a3e10984a0650015f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 58/71] fix: \left[\begin{matrix} is read as a bracketed matrix
 only together with its closing \right]

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index b91c2c0..a5dc2e0 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -59,7 +59,7 @@ def latex2sympy(sympy: str, variable_values={}):
     # Translate Derivative
     sympy = sympy.replace(r'\mathrm{d}', 'd', -1).replace(r'{\rm d}', 'd', -1)
     # Translate Matrix
-    sympy = sympy.replace(r'\left[\begin{matrix}', r'\begin{bmatrix}', -1).replace(r'\end{matrix}\right]', r'\end{bmatrix}', -1)
+    sympy = re.sub(r"\\left\[\\begin{matrix}((?:(?!\\(?:begin|end){matrix}).)*)\\end{matrix}\\right\]", r"\\begin{bmatrix}\1\\end{bmatrix}", sympy, flags=re.S)
     # Translate Permutation
     sympy = re.sub(r"\(([a-zA-Z0-9+\-*/\\ ]+?)\)_{([a-zA-Z0-9+\-*/\\ ]+?)}", r"\\frac{(\1)!}{((\1)-(\2))!}", sympy)
     # Remove \displaystyle
-- 
2.43.0


From 5064cdd54d9a190733f2591b584c49e59114e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:28 +0000
Subject: [PATCH 59/71] fix: a variable d before an operator, bracket or other
 command is not a differential

---
 latex2sympy/latex2sympy2.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index a5dc2e0..beda838 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -71,6 +71,9 @@ def latex2sympy(sympy: str, variable_values={}):
     # An unbraced exponent or subscript ends at white space, x^2 3 => x^{2} 3
     sympy = re.sub(r"([\^_])\s*(\d+)\s+(?=[\d.])", r"\1{\2} ", sympy)
 
+    # A variable d before a command, d \cdot 2, is no differential like d\theta; the lexer skips \$
+    sympy = re.sub(r"(\\[a-zA-Z]+)|d\s*(\\[a-zA-Z]+)", separate_differential, sympy)
+
     # variable values
     global VARIABLE_VALUES
     if len(variable_values) > 0:
@@ -122,6 +125,17 @@ def latex2sympy(sympy: str, variable_values={}):
     return return_data
 
 
+def separate_differential(match):
+    command = match.group(2)
+    if command:
+        lex = PSLexer(InputStream(command))
+        lex.removeErrorListeners()
+        token = lex.nextToken()
+        if token.text != command or token.type not in (PSLexer.GREEK_CMD, PSLexer.OTHER_SYMBOL_CMD, PSLexer.SYMBOL):
+            return r"d\$" + match.group()[1:]
+    return match.group()
+
+
 CLOSING = (PSLexer.R_PAREN, PSLexer.R_BRACKET, PSLexer.R_BRACE, PSLexer.R_BRACE_VISUAL)
 
 
@@ -814,7 +828,7 @@ def convert_frac(frac):
                   frac.upper.start.type == PSLexer.SYMBOL and
                   frac.upper.start.text == '\\partial'):
                 return [wrt]
-            upper_text = rule2text(frac.upper)
+            upper_text = rule2text(frac.upper).replace(r'\$', ' ')
 
             expr_top = None
             if diff_op and upper_text.startswith('d'):
-- 
2.43.0


From 94c83eb310d96ce1e412b38c96d1a45a74e5822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 60/71] fix: differential of a symbol such as \ell names that
 symbol

---
 latex2sympy/latex2sympy2.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index beda838..b0cf00e 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -127,15 +127,18 @@ def latex2sympy(sympy: str, variable_values={}):
 
 def separate_differential(match):
     command = match.group(2)
-    if command:
-        lex = PSLexer(InputStream(command))
-        lex.removeErrorListeners()
-        token = lex.nextToken()
-        if token.text != command or token.type not in (PSLexer.GREEK_CMD, PSLexer.OTHER_SYMBOL_CMD, PSLexer.SYMBOL):
-            return r"d\$" + match.group()[1:]
+    if command and command_type(command) not in (PSLexer.GREEK_CMD, PSLexer.OTHER_SYMBOL_CMD, PSLexer.SYMBOL):
+        return r"d\$" + match.group()[1:]
     return match.group()
 
 
+def command_type(command):
+    lex = PSLexer(InputStream(command))
+    lex.removeErrorListeners()
+    token = lex.nextToken()
+    return token.type if token.text == command else None
+
+
 CLOSING = (PSLexer.R_PAREN, PSLexer.R_BRACKET, PSLexer.R_BRACE, PSLexer.R_BRACE_VISUAL)
 
 
@@ -810,13 +813,13 @@ def convert_frac(frac):
               frac.lower.start.text == '\\partial'):
             # a letter or Greek letter, maybe with an index
             lower_text = rule2text(frac.lower)[len("\\partial"):]
-            match = re.match(r"\s*\\?([a-zA-Z]+)\s*(_\s*(\w|{\s*\w+\s*}))?\s*$", lower_text)
+            match = re.match(r"\s*(\\?[a-zA-Z]+)\s*(_\s*(\w|{\s*\w+\s*}))?\s*$", lower_text)
             if match:
                 partial_op = True
                 subscript = match.group(3).strip("{} \t\r\n") if match.group(3) else ''
                 if len(subscript) > 1:
                     subscript = '{' + subscript + '}'
-                wrt = match.group(1) + ('_' + subscript if subscript else '')
+                wrt = get_differential_var_str('d' + match.group(1)) + ('_' + subscript if subscript else '')
 
         if diff_op or partial_op:
             wrt = sympy.Symbol(wrt, real=is_real)
@@ -1200,7 +1203,8 @@ def get_differential_var_str(text):
             idx = i
             break
     text = text[idx:]
-    if text[0] == "\\":
+    # symbols other than Greek letters keep their backslash, see convert_atom
+    if text[0] == "\\" and command_type(re.match(r"\\[a-zA-Z]+", text).group()) != PSLexer.OTHER_SYMBOL_CMD:
         text = text[1:]
     return text
 
-- 
2.43.0


From 2ac041b9377e9ca833efac863c17e55a2e5289f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:47 +0000
Subject: [PATCH 61/71] fix: \$ is skipped by the lexer, only the math
 delimiters are blanked

---
 latex2sympy/latex2sympy2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index b0cf00e..d2156f2 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -66,8 +66,8 @@ def latex2sympy(sympy: str, variable_values={}):
     sympy = sympy.replace(r'\displaystyle', ' ', -1)
     # Remove \quad
     sympy = sympy.replace(r'\quad', ' ', -1).replace(r'\qquad', ' ', -1).replace(r'~', ' ', -1).replace(r'\,', ' ', -1)
-    # Remove $
-    sympy = sympy.replace(r'$', ' ', -1)
+    # Remove $, not \$ that the lexer skips
+    sympy = re.sub(r"(\\.)|\$", lambda m: m.group(1) or ' ', sympy, flags=re.S)
     # An unbraced exponent or subscript ends at white space, x^2 3 => x^{2} 3
     sympy = re.sub(r"([\^_])\s*(\d+)\s+(?=[\d.])", r"\1{\2} ", sympy)
 
@@ -831,7 +831,7 @@ def convert_frac(frac):
                   frac.upper.start.type == PSLexer.SYMBOL and
                   frac.upper.start.text == '\\partial'):
                 return [wrt]
-            upper_text = rule2text(frac.upper).replace(r'\$', ' ')
+            upper_text = rule2text(frac.upper)
 
             expr_top = None
             if diff_op and upper_text.startswith('d'):
-- 
2.43.0


From 1acf843aa0a71099648827ed4c023d821441291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:40 +0000
Subject: [PATCH 62/71] fix: ASCII-math printer brackets bodies, bases and
 denominators, and prints limits, indefinite, iterated and nested operators

---
 latex2sympy/asciimath_printer.py | 79 +++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/latex2sympy/asciimath_printer.py b/latex2sympy/asciimath_printer.py
index dd1b676..77109b9 100644
--- a/latex2sympy/asciimath_printer.py
+++ b/latex2sympy/asciimath_printer.py
@@ -1,35 +1,72 @@
 from sympy.printing.str import StrPrinter
+from sympy.printing.precedence import PRECEDENCE
+from sympy.concrete import Product, Sum
 from sympy.core import S
+from sympy.core.function import Derivative
+from sympy.integrals import Integral
+from sympy.series.limits import Limit
 
 class AsciiMathPrinter(StrPrinter):
 
-    def _print_Limit(self, expr):
-        e, z = expr.args
+    def parenthesize(self, item, level, strict=False):
+        # the body of these extends to the right
+        if isinstance(item, (Limit, Integral, Sum, Product, Derivative)):
+            return "(%s)" % self._print(item)
+        # factors of a negative product need parentheses like those of any other
+        return super().parenthesize(item, max(level, PRECEDENCE["Mul"]), strict)
+
+    def _print_body(self, expr):
+        if isinstance(expr, (Limit, Integral, Sum, Product, Derivative)):
+            return self._print(expr)
+        result = self.parenthesize(expr, PRECEDENCE["Mul"], strict=True)
+        return "(%s)" % result if result.startswith("-") else result
 
-        return "lim_(%s -> %s) %s" % (self._print(z), self._print(z), self._print(e))
+    def _print_Limit(self, expr):
+        e, z, z0, dir = expr.args
+        point = self._print(z0)
+        if str(dir) != "+-" and not z0.is_infinite:
+            point = "%s^%s" % (self.parenthesize(z0, PRECEDENCE["Pow"]), dir)
+        return "lim_(%s -> %s) %s" % (self._print(z), point, self._print_body(e))
 
     def _print_Integral(self, expr):
-        e, lims = expr.args
-        if len(lims) > 1:
-            return "int_(%s)^(%s) %s d%s" % (self._print(lims[1]), self._print(lims[2]), self._print(e), self._print(lims[0]))
-        else:
-            return "int %s d%s" % (self._print(e), self._print(lims))
-    
+        result = self._print_body(expr.function)
+        for lims in expr.limits:
+            if len(lims) > 2:
+                bounds = "_(%s)^(%s)" % (self._print(lims[1]), self._print(lims[2]))
+            elif len(lims) > 1:
+                bounds = "^(%s)" % self._print(lims[1])
+            else:
+                bounds = ""
+            result = "int%s %s d%s" % (bounds, result, self._print(lims[0]))
+        return result
+
+    def _print_series(self, name, expr):
+        result = self._print_body(expr.function)
+        for lims in expr.limits:
+            result = "%s_(%s = %s)^(%s) %s" % (name, self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), result)
+        return result
+
     def _print_Sum(self, expr):
-        e, lims = expr.args
-        return "sum_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self._print(e))
+        return self._print_series("sum", expr)
 
     def _print_Product(self, expr):
-        e, lims = expr.args
-        return "prod_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self._print(e))
+        return self._print_series("prod", expr)
 
     def _print_factorial(self, expr):
-        return "%s!" % self._print(expr.args[0])
+        arg = expr.args[0]
+        if arg.is_Function and arg.func == expr.func:
+            return "(%s)!" % self._print(arg)
+        return "%s!" % self.parenthesize(arg, PRECEDENCE["Func"], strict=True)
 
     def _print_Derivative(self, expr):
-        e = expr.args[0]
-        wrt = expr.args[1]
-        return "d/d%s %s" % (self._print(wrt), self._print(e))
+        result = expr.expr
+        result = self._print(result) if isinstance(result, (Limit, Integral, Sum, Product, Derivative)) else self.parenthesize(result, PRECEDENCE["Mul"])
+        for wrt, count in expr.variable_count:
+            if count == 1:
+                result = "d/d%s %s" % (self._print(wrt), result)
+            else:
+                result = "d^(%s)/d%s^(%s) %s" % (self._print(count), self._print(wrt), self._print(count), result)
+        return result
 
     def _print_Abs(self, expr):
         return "|%s|" % self._print(expr.args[0])
@@ -38,13 +75,13 @@ class AsciiMathPrinter(StrPrinter):
         return "%s = %s" % (self._print(expr.args[0]), self._print(expr.args[1]))
 
     def _print_Pow(self, expr):
-        b = self._print(expr.base)
         if expr.exp is S.Half:
-            return "sqrt(%s)" % b
+            return "sqrt(%s)" % self._print(expr.base)
 
+        b = self.parenthesize(expr.base, PRECEDENCE["Pow"])
         if -expr.exp is S.Half:
-            return "1/sqrt(%s)" % b
+            return "1/sqrt(%s)" % self._print(expr.base)
         if expr.exp is -S.One:
             return "1/%s" % b
 
-        return "%s^(%s)" % (b, self._print(expr.exp)) 
+        return "%s^(%s)" % (b, self._print(expr.exp))
-- 
2.43.0


From 803c439e4539af54594960cc4632e218cee5cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 63/71] fix: an integral ends at its own differential when
 another integral follows

---
 latex2sympy/latex2sympy2.py | 46 +++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index d2156f2..e04ae60 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -74,6 +74,9 @@ def latex2sympy(sympy: str, variable_values={}):
     # A variable d before a command, d \cdot 2, is no differential like d\theta; the lexer skips \$
     sympy = re.sub(r"(\\[a-zA-Z]+)|d\s*(\\[a-zA-Z]+)", separate_differential, sympy)
 
+    # An integral ends at its own differential, not at that of a later integral
+    sympy = delimit_integrals(sympy)
+
     # variable values
     global VARIABLE_VALUES
     if len(variable_values) > 0:
@@ -139,6 +142,49 @@ def command_type(command):
     return token.type if token.text == command else None
 
 
+def delimit_integrals(text):
+    """puts braces around integrals that are followed by another differential"""
+    if text.count(r'\int') < 2:
+        return text
+    lex = PSLexer(InputStream(text))
+    lex.removeErrorListeners()
+    tokens = lex.getAllTokens()
+    starts, ends = set(), set()
+    for i, token in enumerate(tokens):
+        if token.type != PSLexer.FUNC_INT:
+            continue
+        depth, pending, end = 0, 1, None
+        for other in tokens[i + 1:]:
+            if other.type in OPEN_GROUP:
+                depth += 1
+            elif other.type in CLOSE_GROUP:
+                depth -= 1
+                if depth < 0:
+                    break
+            elif depth > 0:
+                continue
+            elif other.type in SEPARATORS:
+                break
+            elif other.type == PSLexer.FUNC_INT:
+                pending += 1
+            elif other.type == PSLexer.DIFFERENTIAL:
+                if end is not None:
+                    starts.add(token.start)
+                    ends.add(end)
+                    break
+                pending -= 1
+                if pending == 0:
+                    end = other.stop
+    return ''.join(('{' if i in starts else '') + c + ('}' if i in ends else '') for i, c in enumerate(text))
+
+
+OPEN_GROUP = (PSLexer.L_PAREN, PSLexer.L_GROUP, PSLexer.L_BRACE, PSLexer.L_BRACE_VISUAL, PSLexer.L_BRACE_CMD, PSLexer.L_BRACKET, PSLexer.L_BRACK,
+              PSLexer.L_FLOOR, PSLexer.LL_CORNER, PSLexer.L_CEIL, PSLexer.UL_CORNER, PSLexer.CMD_MATRIX_START, PSLexer.CMD_DET_START)
+CLOSE_GROUP = (PSLexer.R_PAREN, PSLexer.R_GROUP, PSLexer.R_BRACE, PSLexer.R_BRACE_VISUAL, PSLexer.R_BRACE_CMD, PSLexer.R_BRACKET, PSLexer.R_BRACK,
+               PSLexer.R_FLOOR, PSLexer.LR_CORNER, PSLexer.R_CEIL, PSLexer.UR_CORNER, PSLexer.CMD_MATRIX_END, PSLexer.CMD_DET_END)
+SEPARATORS = (PSLexer.ASSIGNMENT, PSLexer.EQUAL, PSLexer.LT, PSLexer.LTE, PSLexer.GT, PSLexer.GTE, PSLexer.UNEQUAL, PSLexer.IN,
+              PSLexer.COMMA, PSLexer.SEMICOLON, PSLexer.MATRIX_DEL_COL, PSLexer.MATRIX_DEL_ROW)
+
 CLOSING = (PSLexer.R_PAREN, PSLexer.R_BRACKET, PSLexer.R_BRACE, PSLexer.R_BRACE_VISUAL)
 
 
-- 
2.43.0


From 36a019830967d7ab7b921774fc87bca6e8092b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 64/71] fix: the differential of x_{1} names x_1 like x_{1}
 itself

---
 latex2sympy/latex2sympy2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index e04ae60..799f701 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1252,7 +1252,8 @@ def get_differential_var_str(text):
     # symbols other than Greek letters keep their backslash, see convert_atom
     if text[0] == "\\" and command_type(re.match(r"\\[a-zA-Z]+", text).group()) != PSLexer.OTHER_SYMBOL_CMD:
         text = text[1:]
-    return text
+    # x_{1} is x_1
+    return re.sub(r"_\{(\d)\}$", r"_\1", text)
 
 
 def latex(tex):
-- 
2.43.0


From 63047f4cbfbe747e3de21bcf1a8dd6dbe2628d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:16 +0000
Subject: [PATCH 65/71] fix: latex() prints notation that latex2sympy reads
 back as the same expression

---
 latex2sympy/latex2sympy2.py | 97 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 95 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 799f701..7d14cdd 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -13,6 +13,8 @@ except Exception:
     from .gen.PSLexer import PSLexer
     from .gen.PSListener import PSListener
 
+from sympy.printing.latex import LatexPrinter
+from sympy.printing.precedence import PRECEDENCE
 from sympy.printing.str import StrPrinter
 
 from sympy.parsing.sympy_parser import parse_expr
@@ -1256,14 +1258,105 @@ def get_differential_var_str(text):
     return re.sub(r"_\{(\d)\}$", r"_\1", text)
 
 
+BIG_OPERATORS = (sympy.Integral, sympy.Sum, sympy.Product, sympy.Limit, sympy.Derivative)
+
+
+class ParsableLatexPrinter(LatexPrinter):
+    """prints the notations that latex2sympy reads"""
+
+    def __init__(self, settings=None):
+        super().__init__(dict(settings or {}, inv_trig_style='full'))
+
+    def _hprint_Function(self, func):
+        if func in ('arccsc', 'arcsec', 'arccot'):
+            return '\\' + func
+        return super()._hprint_Function(func)
+
+    def _print_log(self, expr, exp=None):
+        if len(expr.args) == 2 and expr.args[1] != sympy.E:
+            func = r'\log_{%s}' % self._print(expr.args[1])
+        else:
+            func = r'\ln'
+        if exp is not None:
+            func += '^{%s}' % exp
+        return r'%s\left(%s \right)' % (func, self._print(expr.args[0]))
+
+    def _print_Symbol(self, expr, style='plain'):
+        if expr.name.startswith('\\'):
+            return expr.name
+        return super()._print_Symbol(expr, style=style)
+
+    def _print_Mod(self, expr, exp=None):
+        args = self.parenthesize(expr.args[0], PRECEDENCE['Mul'], strict=True), self.parenthesize(expr.args[1], PRECEDENCE['Mul'])
+        return r'\left(%s \mod %s\right)^{%s}' % (args + (exp,)) if exp is not None else r'%s \mod %s' % args
+
+    def _print_Pow(self, expr):
+        base, exp = expr.base, expr.exp
+        # an unevaluated reciprocal such as that in 2/0.3
+        if base.is_Rational and not base.is_Integer and exp.is_Rational and exp.is_negative:
+            return r'\left(%s\right)^{%s}' % (self._print(base), self._print(exp))
+        return super()._print_Pow(expr)
+
+    def _print_Function(self, expr, exp=None):
+        # without braces around the argument list, which would make it a factor of the argument
+        result = super()._print_Function(expr, exp)
+        start = result.find(r'{\left(')
+        if start > 0 and result.endswith(r' \right)}'):
+            result = result[:start] + result[start + 1:-1]
+        return result
+
+    def _needs_mul_brackets(self, expr, first=False, last=False):
+        return isinstance(expr, BIG_OPERATORS) or super()._needs_mul_brackets(expr, first, last)
+
+    def _print_body(self, expr):
+        if isinstance(expr, BIG_OPERATORS):
+            return self._print(expr)
+        result = self.parenthesize(expr, PRECEDENCE['Mul'], is_neg=expr.could_extract_minus_sign(), strict=True)
+        return r'\left(%s\right)' % result if result.startswith('-') else result
+
+    def _print_Integral(self, expr):
+        result = self._print_body(expr.function)
+        for lim in expr.limits:
+            bounds = ''.join('%s{%s}' % (mark, self._print(bound)) for mark, bound in zip(('_', '^'), lim[1:]))
+            result = r'\int%s %s\, d%s' % (bounds, result, self._print(lim[0]))
+        return result
+
+    def _print_series(self, name, expr):
+        result = self._print_body(expr.function)
+        for lim in expr.limits:
+            result = r'\%s_{%s=%s}^{%s} %s' % ((name,) + tuple(map(self._print, lim)) + (result,))
+        return result
+
+    def _print_Sum(self, expr):
+        return self._print_series('sum', expr)
+
+    def _print_Product(self, expr):
+        return self._print_series('prod', expr)
+
+    def _print_Derivative(self, expr):
+        result = self._print_body(expr.expr)
+        for wrt, count in expr.variable_count:
+            result = r'\frac{d}{d %s} ' % self._print(wrt) * count + result
+        return result
+
+    def _print_Limit(self, expr):
+        e, z, z0, dir = expr.args
+        point = self._print(z0)
+        if str(dir) != '+-' and not z0.is_infinite:
+            point += '^{%s}' % dir
+        return r'\lim_{%s \to %s} \left(%s\right)' % (self._print(z), point, self._print(e))
+
+    def _print_list(self, expr):
+        return r'\left[%s\right]' % ', '.join(map(self._print, expr))
+
+
 def latex(tex):
     global frac_type
-    result = sympy.latex(tex)
+    result = ParsableLatexPrinter().doprint(tex)
     result = result.replace(r'\frac', frac_type, -1).replace(r'\dfrac', frac_type, -1).replace(r'\tfrac', frac_type, -1)
     result = result.replace(r'\left[\begin{matrix}', r'\begin{bmatrix}', -1).replace(r'\end{matrix}\right]', r'\end{bmatrix}', -1)
     result = result.replace(r'\left', r'', -1).replace(r'\right', r'', -1)
     result = result.replace(r' )', r')', -1)
-    result = result.replace(r'\log', r'\ln', -1)
     return result
 
 
-- 
2.43.0


From 8a9905356d1cae26ead380cf765be7d000d9576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 66/71] fix: latex() prints a transposed scalar as it is
 written

---
 latex2sympy/latex2sympy2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 7d14cdd..af74ed8 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1314,6 +1314,10 @@ class ParsableLatexPrinter(LatexPrinter):
         result = self.parenthesize(expr, PRECEDENCE['Mul'], is_neg=expr.could_extract_minus_sign(), strict=True)
         return r'\left(%s\right)' % result if result.startswith('-') else result
 
+    def _print_transpose(self, expr, exp=None):
+        result = '%s^{T}' % self.parenthesize(expr.args[0], PRECEDENCE['Pow'])
+        return r'\left(%s\right)^{%s}' % (result, exp) if exp is not None else result
+
     def _print_Integral(self, expr):
         result = self._print_body(expr.function)
         for lim in expr.limits:
-- 
2.43.0


From 5a417d6fa8d858e8364798ad9b789ac8b57a6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 67/71] fix: latex() keeps a variable d and a negated remainder
 apart from their neighbours

---
 latex2sympy/latex2sympy2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index af74ed8..2c2a283 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1284,11 +1284,15 @@ class ParsableLatexPrinter(LatexPrinter):
     def _print_Symbol(self, expr, style='plain'):
         if expr.name.startswith('\\'):
             return expr.name
+        # d followed by a letter is a differential
+        if expr.name == 'd':
+            return '{d}'
         return super()._print_Symbol(expr, style=style)
 
     def _print_Mod(self, expr, exp=None):
-        args = self.parenthesize(expr.args[0], PRECEDENCE['Mul'], strict=True), self.parenthesize(expr.args[1], PRECEDENCE['Mul'])
-        return r'\left(%s \mod %s\right)^{%s}' % (args + (exp,)) if exp is not None else r'%s \mod %s' % args
+        result = r'\left(%s \mod %s\right)' % (self.parenthesize(expr.args[0], PRECEDENCE['Mul'], strict=True),
+                                              self.parenthesize(expr.args[1], PRECEDENCE['Mul']))
+        return '%s^{%s}' % (result, exp) if exp is not None else result
 
     def _print_Pow(self, expr):
         base, exp = expr.base, expr.exp
-- 
2.43.0


From 297a70b245a9a647d7a5febe9e9d1f79d1274b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 68/71] fix: bars of absolute values inside of braces are no
 set-builder bar

---
 math_evaluation/core/latex_normalize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index e61c272..72cf12e 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -299,9 +299,10 @@ def _string_normalize(expr: str):
         return string_normalize(expr)
 
     # Extract yyy from {xxx | yyy }
-    m = re.search(r"^\\{(.*)\|(.*)\\}$", expr, re.DOTALL)
-    if m:
-        expr = m.group(2) if m.group(2) else m.group(3)
+    # bars in pairs are absolute values, e.g., {|x|, 2}
+    m = re.search(r"^\\{((?:\s*\|[^|]*\|)*[^|]*)\|(.+)\\}$", expr, re.DOTALL)
+    if m and expr.count("|") % 2 == 1:
+        expr = m.group(2)
         return string_normalize(expr)
 
     # Remove all kinds of space
-- 
2.43.0


From 6612ab4b2562d7827891e4225d475a86ad0c9f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 69/71] fix: white space around ^ and _, in {\rm d} and in
 (n)_{k} means nothing

---
 latex2sympy/latex2sympy2.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 2c2a283..da8f62a 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -59,17 +59,21 @@ def latex2sympy(sympy: str, variable_values={}):
     # Translate Transpose
     sympy = sympy.replace(r'\mathrm{T}', 'T', -1)
     # Translate Derivative
-    sympy = sympy.replace(r'\mathrm{d}', 'd', -1).replace(r'{\rm d}', 'd', -1)
+    sympy = re.sub(r"\\mathrm{d}|{\s*\\rm\s+d\s*}", 'd', sympy)
     # Translate Matrix
     sympy = re.sub(r"\\left\[\\begin{matrix}((?:(?!\\(?:begin|end){matrix}).)*)\\end{matrix}\\right\]", r"\\begin{bmatrix}\1\\end{bmatrix}", sympy, flags=re.S)
-    # Translate Permutation
-    sympy = re.sub(r"\(([a-zA-Z0-9+\-*/\\ ]+?)\)_{([a-zA-Z0-9+\-*/\\ ]+?)}", r"\\frac{(\1)!}{((\1)-(\2))!}", sympy)
     # Remove \displaystyle
     sympy = sympy.replace(r'\displaystyle', ' ', -1)
     # Remove \quad
     sympy = sympy.replace(r'\quad', ' ', -1).replace(r'\qquad', ' ', -1).replace(r'~', ' ', -1).replace(r'\,', ' ', -1)
     # Remove $, not \$ that the lexer skips
     sympy = re.sub(r"(\\.)|\$", lambda m: m.group(1) or ' ', sympy, flags=re.S)
+    # White space around an exponent or a subscript, ^ T, _{ 1 }, means nothing
+    # (but in the name of a \variable{...})
+    sympy = re.sub(r"(\\variable{(?:[^{}]|{[^{}]*})*})|([\^_])\s*{\s*(\w+|\\top)\s*}", lambda m: m.group(1) or m.expand(r"\2{\3}"), sympy)
+    sympy = re.sub(r"(\\variable{(?:[^{}]|{[^{}]*})*})|(?<!\\)\s*([\^_])\s*", lambda m: m.group(1) or m.group(2), sympy)
+    # Translate Permutation
+    sympy = re.sub(r"\(([a-zA-Z0-9+\-*/\\\s]+?)\)_{([a-zA-Z0-9+\-*/\\\s]+?)}", r"\\frac{(\1)!}{((\1)-(\2))!}", sympy)
     # An unbraced exponent or subscript ends at white space, x^2 3 => x^{2} 3
     sympy = re.sub(r"([\^_])\s*(\d+)\s+(?=[\d.])", r"\1{\2} ", sympy)
 
-- 
2.43.0


From a9eaabbd666293d516dd81bd08df2a6486a13558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 70/71] fix: \left( \right) and braces around parenthesised
 arguments do not change what is read

---
 latex2sympy/latex2sympy2.py | 48 +++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index da8f62a..a94a158 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -83,6 +83,9 @@ def latex2sympy(sympy: str, variable_values={}):
     # An integral ends at its own differential, not at that of a later integral
     sympy = delimit_integrals(sympy)
 
+    # Parentheses of any typography are parentheses
+    sympy = plain_parentheses(sympy)
+
     # variable values
     global VARIABLE_VALUES
     if len(variable_values) > 0:
@@ -184,6 +187,51 @@ def delimit_integrals(text):
     return ''.join(('{' if i in starts else '') + c + ('}' if i in ends else '') for i, c in enumerate(text))
 
 
+def plain_parentheses(text):
+    """removes \\left and \\right at parentheses, and braces around the parenthesised argument of a function"""
+    if r'left' not in text and not re.search(r"{\s*\(", text):
+        return text
+    lex = PSLexer(InputStream(text))
+    lex.removeErrorListeners()
+    tokens = lex.getAllTokens()
+    types = [token.type for token in tokens]
+    opened, opener, removed = [], {}, set()
+    for i, kind in enumerate(types):
+        if kind in OPEN_GROUP:
+            opened.append(i)
+        elif kind in CLOSE_GROUP and opened:
+            j = opener[i] = opened.pop()
+            sides = (types[j - 1], types[i - 1]) if j > 0 else ()
+            if (types[j], kind) in PARENTHESES and sides in SIDES:
+                removed.update((j - 1, i - 1))
+            elif (types[j], kind) == BRACES and types[i - 1] == PSLexer.R_PAREN:
+                first = j + 2 if j + 1 in removed else j + 1
+                if opener.get(i - 1) == first and is_function(types, opener, j):
+                    removed.update((j, i))
+    for i in sorted(removed, reverse=True):
+        text = text[:tokens[i].start] + ' ' + text[tokens[i].stop + 1:]
+    return text
+
+
+def is_function(types, opener, end):
+    """whether a function with its exponent and subscript ends before the token"""
+    while end > 1:
+        start = opener.get(end - 1, end - 1)
+        if types[start - 1] not in (PSLexer.CARET, PSLexer.UNDERSCORE):
+            break
+        end = start - 1
+    name = opener.get(end - 1, end - 1)
+    if name > 0 and types[name - 1] == PSLexer.CMD_OPERATORNAME:
+        return True
+    return name == end - 1 and name >= 0 and types[name] in FUNCTIONS
+
+
+PARENTHESES = ((PSLexer.L_PAREN, PSLexer.R_PAREN), (PSLexer.L_BRACKET, PSLexer.R_BRACKET))
+BRACES = (PSLexer.L_BRACE, PSLexer.R_BRACE)
+SIDES = ((PSLexer.L_LEFT, PSLexer.R_RIGHT), (PSLexer.ML_LEFT, PSLexer.MR_RIGHT))
+FUNCTIONS = [getattr(PSLexer, name) for name in PSLexer.symbolicNames if name.startswith('FUNC_')
+             and name not in ('FUNC_INT', 'FUNC_SQRT', 'FUNC_SUM', 'FUNC_PROD', 'FUNC_LIM')]
+
 OPEN_GROUP = (PSLexer.L_PAREN, PSLexer.L_GROUP, PSLexer.L_BRACE, PSLexer.L_BRACE_VISUAL, PSLexer.L_BRACE_CMD, PSLexer.L_BRACKET, PSLexer.L_BRACK,
               PSLexer.L_FLOOR, PSLexer.LL_CORNER, PSLexer.L_CEIL, PSLexer.UL_CORNER, PSLexer.CMD_MATRIX_START, PSLexer.CMD_DET_START)
 CLOSE_GROUP = (PSLexer.R_PAREN, PSLexer.R_GROUP, PSLexer.R_BRACE, PSLexer.R_BRACE_VISUAL, PSLexer.R_BRACE_CMD, PSLexer.R_BRACKET, PSLexer.R_BRACK,
-- 
2.43.0


From 7cb5c3a2931d2c40a3e751719ceb6f819014a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:13 +0000
Subject: [PATCH 71/71] fix: evaluation at an expression in several symbols
 does not depend on the hash seed

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index a94a158..957efd6 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -626,7 +626,7 @@ def do_subs(expr, at):
         if len(syms) == 0:
             return expr
         elif len(syms) > 0:
-            sym = next(iter(syms))
+            sym = min(syms, key=str)
             return expr.subs(sym, at_expr)
     elif at.equality():
         lh = convert_expr(at.equality().expr(0))
-- 
2.43.0

