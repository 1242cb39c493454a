#!/opt/venv/bin/python
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
L2S = "latex2sympy/latex2sympy2.py"
EV = "math_evaluation/core/evaluations.py"
LN = "math_evaluation/core/latex_normalize.py"
LP = "math_evaluation/core/latex_parser.py"
TE = "math_evaluation/core/type_evaluations.py"
CO = "math_evaluation/core/constants.py"
LM = "math_evaluation/llms/llm_models.py"
PR = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    PR.append({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


P("P01", "Arithmetic LaTeX denotes its exact value",
  "Parsing an arithmetic expression gives an expression whose value is exactly the rational number that ordinary precedence and left-to-right association give it, in every written form: decimals, thousands separators, e-notation, percent, all fraction forms, every grouping delimiter (plain, \\left\\right, \\mleft\\mright), implicit and explicit products, quotients (/, \\div, :, \\over), signs, powers, factorials, absolute values, floor, ceiling, gcd, lcm, max, min, modulus, binomials and falling factorials. No rounding is introduced by parsing.",
  ["inputs"], "every well-formed arithmetic expression, nested to any depth, in every combination of notations",
  "The parser tests sample one or two shapes per token; nothing checks interactions of operators, delimiters, signs and nesting against an independent value.",
  [L2S, "latex2sympy/PS.g4"],
  [("add/mul/unary/postfix conversion", L2S + ":convert_add..convert_exp"), ("number conversion", L2S + ":convert_atom"), ("fraction conversion", L2S + ":convert_frac"), ("multi-argument functions", L2S + ":convert_func")],
  observe=["latex2sympy(tex)"])
P("P02", "Function notation denotes the named function",
  "For every supported elementary function (trigonometric, hyperbolic and inverse in all spellings, log/ln with and without base, exp, e^..., square and n-th roots, floor/ceil, abs), in every written form (parenthesised with any delimiter, unparenthesised argument, exponent on the function including the inverse exponent -1, numeric or symbolic argument), the parsed expression evaluates at every point of its domain to that mathematical function of its argument.",
  ["inputs"], "every function, written form, argument expression and evaluation point",
  "Tests compare trees built with the same sympy calls for a few arguments; they cannot cover the product of function, spelling, exponent form, argument form and point.",
  [L2S, "latex2sympy/PS.g4"],
  [("function conversion", L2S + ":convert_func"), ("powers on functions", L2S + ":convert_func (func_pow)"), ("exp/e", L2S + ":handle_exp")],
  observe=["latex2sympy(tex)"])
P("P03", "Names and placeholders keep their identity",
  "Two occurrences of a name denote the same symbol exactly when they are written as the same name (letter, Greek letter, other symbol command, accent, subscript), also across separate parses; a name never absorbs or loses a neighbouring factor, subscript or exponent. The real-number setting decides whether parsed symbols are real, and every \\variable placeholder whose value is supplied is replaced by exactly that value (as a percentage where marked) wherever it occurs, while unsupplied placeholders stay symbols distinct from ordinary names.",
  ["inputs", "configurations"], "all pairs and products of names in the alphabet, all placeholder environments, both settings",
  "Tests name a handful of symbols; identity must hold over all pairs of a few hundred names and over placements inside larger expressions.",
  [L2S, "latex2sympy/PS.g4"],
  [("atom conversion", L2S + ":convert_atom"), ("placeholder values", L2S + ":latex2sympy/convert_atom VARIABLE"), ("real assumption", L2S + ":set_real")],
  observe=["latex2sympy(tex, variable_values)", "set_real"])
P("P04", "Relations and lists keep operator, order and members",
  "A relation parses to the same relation between the parsed left and right sides (=, ==, \\equiv, <, >, \\le, \\ge, \\leqslant, \\geqslant, \\ne, != and their synonyms), never evaluated away or flipped. A comma or semicolon separated list, bare or in [ ], { }, \\{ \\} or their \\left\\right forms, parses to the list of its members in order.",
  ["inputs"], "every relation symbol over every pair of expressions, every list of relations and expressions",
  "Tests cover each symbol once with fixed operands.",
  [L2S, "latex2sympy/PS.g4"],
  [("relation conversion", L2S + ":convert_relation"), ("list handling", L2S + ":latex2sympy")],
  observe=["latex2sympy(tex)"])
P("P05", "Matrix LaTeX denotes the matrix it displays",
  "A matrix environment (matrix, pmatrix, bmatrix, \\left[...\\right]) parses to the matrix of its entries, and sums, differences, negations, scalar and matrix products, powers, inverses, transposes, determinants (vmatrix, \\det), norms, elementary row and column operations over an arrow, and the named matrix operators (rank, trace, rref, nullspace, rows, cols, eye, zeros, ones, diag, hstack, vstack, eigenvalues, eigenvectors, diagonalisation, orthogonalisation) give the values linear algebra prescribes.",
  ["inputs"], "all small rational matrices, shapes, operators and operator combinations",
  "Tests use one fixed matrix per operation; most operator/shape/sign combinations are never run.",
  [L2S, "latex2sympy/PS.g4"],
  [("matrix building", L2S + ":convert_matrix"), ("elementary operations", L2S + ":convert_elementary_transform"), ("flat sums and products", L2S + ":mat_add_flat, mat_mul_flat"), ("named operators", L2S + ":convert_func")],
  observe=["latex2sympy(tex)", "latex2latex(tex)"])
P("P06", "Calculus notation denotes its operator",
  "Derivatives (d and \\partial, operator and quotient forms), indefinite and definite integrals (differential anywhere it may be written, bounds in either order), finite sums and products, limits (two spellings of the arrow, one-sided) and evaluation bars parse to exactly that operator with the written variable, bounds, direction and body, so that evaluating them gives the mathematical value.",
  ["inputs"], "all polynomial and elementary bodies, variables, bounds, directions and notational variants",
  "Tests compare a few trees; bound order, variable choice, body extent and direction interact.",
  [L2S, "latex2sympy/PS.g4"],
  [("integral", L2S + ":handle_integral"), ("sum/product", L2S + ":handle_sum_or_prod"), ("limit", L2S + ":handle_limit"), ("derivative", L2S + ":convert_frac/convert_postfix_list"), ("evaluation bar", L2S + ":do_subs")],
  observe=["latex2sympy(tex).doit()"])
P("P07", "Purely typographic variants parse alike",
  "Changing only the typography of an expression - spaces, tabs and newlines between tokens, \\, \\quad \\qquad ~ \\displaystyle, $ signs, \\left\\right or \\mleft\\mright, \\dfrac/\\tfrac for \\frac, redundant braces, \\mathrm{d} and {\\rm d} for d, \\mathrm{T} for T - does not change the parsed expression.",
  ["inputs"], "every expression of the language and every set of typographic edits",
  "A metamorphic relation over all expressions and edit combinations; tests exercise isolated commands.",
  [L2S, "latex2sympy/PS.g4"],
  [("pre-parse rewriting", L2S + ":latex2sympy"), ("whitespace skipping", "latex2sympy/PS.g4:WS")],
  observe=["latex2sympy(tex)"])
P("P08", "Parsing is a function of the input and the declared variables",
  "The result of a parse depends only on its text, the placeholder values passed to that call, the real-number setting and the declared matrix variables: no sequence of earlier successful or failed parses, derivative parses, placeholder substitutions, printing or equivalence checks changes it, and arguments passed in are not modified. Declaring variables replaces the previous declarations and clearing them restores the initial behaviour.",
  ["histories"], "every sequence of API calls, including failing ones",
  "Module-level state survives between calls; tests never replay an input after a history and compare.",
  [L2S],
  [("module state", L2S + ":latex2sympy globals"), ("declared variables", L2S + ":set_variances"), ("placeholder values", L2S + ":latex2sympy")],
  state=[("VARIABLE_VALUES, variances, var, frac_type, diff_op, partial_op, is_real", "process-wide parser state", L2S)],
  observe=["latex2sympy(tex)"])
P("P09", "Printing and parsing are inverse",
  "Printing a supported expression, equation, or matrix as LaTeX with this package and parsing the output again gives a mathematically equal object, and evaluating LaTeX to LaTeX preserves the value; the fraction style of the last input is kept.",
  ["inputs"], "every expression built from the supported operators, functions, relations and matrices",
  "Round trips quantify over all expression trees; tests print a few constants.",
  [L2S],
  [("LaTeX output", L2S + ":latex"), ("evaluate and print", L2S + ":latex2latex")],
  observe=["latex(expr)", "latex2latex(tex)"])
P("P10", "Malformed LaTeX is refused, not guessed",
  "Text that stops before an opened group, fraction, environment, function argument or operator is complete, that begins with or doubles a binary operator other than a sign, or that contains an unknown character or command, raises an error instead of returning a value; after any refusal well-formed inputs parse as before.",
  ["inputs", "fault_sequences"], "all truncations and corruptions of all well-formed expressions",
  "The tests list a few bad strings; truncation points and corruptions are unbounded.",
  [L2S, "latex2sympy/PS.g4"],
  [("error listener", L2S + ":MathErrorListener")],
  observe=["latex2sympy(tex)"])
P("P11", "ASCII-math output reads back as the same expression",
  "The ASCII-math printer renders every supported expression (sums, products, powers, roots, functions, absolute values, factorials, derivatives, integrals, sums, products, limits, equations) without failing, and the text, read by ordinary ASCII-math rules, denotes the same expression with the same variables and bounds.",
  ["inputs"], "every expression tree",
  "There is no test of the printer at all beyond samples; parenthesisation depends on nesting.",
  ["latex2sympy/asciimath_printer.py"],
  [("printer", "latex2sympy/asciimath_printer.py:AsciiMathPrinter")],
  observe=["AsciiMathPrinter().doprint(expr)"])

P("E01", "Answer comparison is total and never raises",
  "Comparing any two strings or None values returns a truth value and never raises or hangs: two missing answers match, one missing answer never matches, an answer always matches itself, also after surrounding blanks are added, and an empty or blank prediction never matches a non-blank answer.",
  ["inputs"], "all pairs of strings: well-formed answers, mutations of them, model-generated text, raw unicode, None",
  "Totality is a statement over all strings; tests feed well-formed pairs.",
  [EV, LN, LP],
  [("comparison entry point", EV + ":is_equiv"), ("normalisation guard", LN + ":string_normalize"), ("parse guards", LP + ":_sympy_parse")],
  observe=["is_equiv(a, b)", "are_equal_under_sympy(a, b)"])
P("E02", "Equal numbers match in any notation, unequal ones never",
  "Any two notations of the same real number (integer, decimal, thousands separators, fraction, mixed number, negative, scientific, \\frac/\\dfrac/\\tfrac, root and pi forms, arithmetic expressions, rounding within the documented tolerance) compare equal, in both argument orders; numbers that differ by clearly more than the tolerance (0.1 percent of a value below one, 0.005 of one above) never do, including sign errors, digit transpositions, misplaced decimal points and off-by-one integers of any size.",
  ["inputs"], "all numbers, all notation pairs, all perturbations outside and inside the tolerance",
  "Tests compare a few dozen fixed pairs; soundness and completeness quantify over value, notation pair and perturbation.",
  [EV, LN, LP, CO],
  [("numeric tolerance", LP + ":_diff_equal"), ("mixed numbers, commas, floats", LN + ":further_string_normalize")],
  observe=["is_equiv(a, b)"])
P("E03", "Symbolic answers match exactly when they are equal",
  "Algebraically equal expressions (reordered, expanded, factored, refactored over a common denominator, rewritten by trigonometric, logarithm and power rules) compare equal in either order, and expressions that differ as functions (a changed coefficient, sign, exponent, constant, function or variable) do not.",
  ["inputs"], "all expressions in one or two variables with random rewrites and mutations",
  "Tests sample fixed identities; soundness against near-miss expressions is untested.",
  [EV, LP],
  [("expand/simplify/numeric cascade", LP + ":_are_equal_latex_sympy"), ("sampling", LP + ":_numerical_equal")],
  observe=["is_equiv(a, b)"])
P("E04", "Ordered and unordered collections compare by their members",
  "Tuples in ( ) or [ ] match exactly when they have equal length and equal members in order; unordered answers (comma lists, 'and'/'or' lists, braces) match exactly when their members can be paired off one to one with equal partners, in any order; a missing, extra, altered or reordered (for tuples) member never matches, and nesting works the same way.",
  ["inputs"], "all collections of numbers, expressions and tuples, all permutations, all single-member mutations",
  "Permutations, near-equal members and nesting are combinatorial; tests try a few.",
  [EV, LN, LP],
  [("splitting", LN + ":split_tuple"), ("matching", EV + ":is_equiv_possible_tuple"), ("set comparison", LP + ":_are_equal_latex_sympy")],
  observe=["is_equiv(a, b)", "are_equal_under_sympy(a, b)"])
P("E05", "Intervals match exactly when they are the same set",
  "Intervals and unions or intersections of intervals compare equal exactly when they denote the same set of reals, whatever the notation of end points, order of union members, typographic form (\\left\\right, \\cup, Unicode union) or 'x \\in' prefix; open versus closed ends, different end points, missing or extra pieces never match.",
  ["inputs"], "all finite unions of intervals with rational, symbolic-constant or infinite end points",
  "Set equality over end-point notation, openness and union structure has unboundedly many cases.",
  [EV, LN],
  [("interval reading", LN + ":_str_to_interval"), ("interval comparison", EV + ":is_equiv_possible_intervals")],
  observe=["is_equiv(a, b)"])
P("E06", "Matrix answers compare entry by entry",
  "Matrices written in any matrix-like environment or as nested lists match exactly when their shapes agree (a row or column vector may be written either way and as a plain list) and every entry matches; a transposed non-symmetric matrix, an altered entry or a different shape never matches.",
  ["inputs"], "all small matrices of numbers and expressions in all notations, all single-entry mutations",
  "Shape, notation and entry notation multiply; tests contain a handful.",
  [EV, LN, LP],
  [("matrix splitting", LN + ":split_matrix"), ("matrix comparison", EV + ":is_equiv_possible_matrix"), ("sympy matrix comparison", LP + ":_are_equal_latex_sympy")],
  observe=["is_equiv(a, b)"])
P("E07", "Equations, functions and inequalities compare by meaning",
  "Equations match when one is the other with sides swapped, terms moved across, or all signs changed; function definitions match when their right-hand sides are equal, also against the bare expression; inequalities match when one is the other mirrored or with terms moved; disequalities match when their sides are the same pair. A changed right-hand side, a strict versus non-strict sign, a reversed direction or an equation against an inequality never match.",
  ["inputs"], "all linear and polynomial relations and their rewrites and mutations",
  "Tests check a few fixed relations; the rewrite space is unbounded.",
  [LP, EV],
  [("relation comparison", LP + ":_are_equal_latex_sympy"), ("relation typing", LP + ":_get_sympy_type")],
  observe=["is_equiv(a, b)", "are_equal_under_sympy(a, b)"])
P("E08", "Units, currency, percent, degrees, times and bases keep the value",
  "Adding or removing a known unit (in \\text, \\mbox or after a space, with powers and plurals), currency sign, \\text wrapper, or comma grouping never changes whether two numeric answers match; p percent matches p and p/100, d degrees matches d and d*pi/180, digits with a base match the digits and their value in base ten, and clock times match the same time of day in 12 or 24 hour form. A different number under the same decoration never matches.",
  ["inputs"], "all numbers with all units, decorations, bases and times of day",
  "Sixty units times wrappers times powers times values; tests try a few.",
  [LN, CO],
  [("unit removal", LN + ":_string_normalize"), ("unit tables", CO + ":UNIT_LIST"), ("time reading", LN + ":_str_to_time_list"), ("base conversion", LN + ":_str_to_decimal")],
  observe=["is_equiv(a, b)"])
P("E09", "Complex numbers match exactly when both parts match",
  "Complex answers in any form (a+bi in any order, products, quotients, powers of i, \\sqrt{-1}, exponential form) match exactly when real and imaginary parts agree within tolerance; conjugates, swapped parts, altered parts and real-versus-complex pairs never match.",
  ["inputs"], "all Gaussian rationals and their rewrites and mutations",
  "Tests contain a few fixed complex answers.",
  [LP, TE, L2S],
  [("imaginary unit handling", LP + ":expr_with_only_i"), ("complex comparison", LP + ":_are_equal_latex_sympy"), ("typed complex comparison", TE + ":is_equiv_complex")],
  observe=["is_equiv(a, b)", "is_equiv_type(a, b, 'Complex')"])
P("E10", "Typed comparison extends the untyped one and never raises",
  "For every pair of strings and every type label (or none) typed comparison returns a truth value without raising and accepts every pair the untyped comparison accepts; with the matching label it additionally treats any bracket style as a vector, any bracket style as a set, the right-hand side of a definition as the function, and i as the imaginary unit, and still rejects pairs that differ in value, order (vectors) or members (sets).",
  ["inputs", "configurations"], "all answer pairs and type labels",
  "Cross product of answer kinds and labels; tests give a few.",
  [TE, EV],
  [("type dispatch", TE + ":is_equiv_type"), ("typed checks", TE + ":is_equiv_complex, is_equiv_vector, is_equiv_set, is_equiv_function")],
  observe=["is_equiv_type(a, b, type)"])
P("E11", "A verdict depends only on the two answers",
  "The verdict for a pair of answers is the same in every process, under every hash seed and random-generator state, after any history of other comparisons and parses (including failed ones; declaring matrix variables and changing the real-number setting are configuration, not history), when called from any thread, and with or without verbose output.",
  ["inputs", "histories", "configurations"], "all pairs, all histories of earlier calls, all hash seeds, main and worker threads",
  "Tests run in one process, one order, one thread.",
  [EV, LP, LN, L2S],
  [("set iteration", EV + ":is_equiv_possible_tuple"), ("sampling", LP + ":_numerical_equal"), ("time limits", LP + ":sympy_simplify")],
  state=[("parser globals", "leftover parser state", L2S), ("random module state", "sampling points", LP)],
  observe=["is_equiv(a, b)"])
P("E12", "Answers are data: comparing them has no side effects",
  "Comparing, normalising or typing answers never executes code contained in an answer: no file is opened or written, no process started, no module imported on behalf of the answer, nothing is read from standard input, and no interpreter state is changed.",
  ["inputs"], "all answer strings, in particular ones that contain Python expressions and calls",
  "Tests only contain mathematical answers.",
  [LP],
  [("Python-syntax fallback parser", LP + ":_sympy_parse")],
  observe=["is_equiv(a, b)", "audit events of the process"])
P("E13", "Benchmark scoring counts exactly the correct predictions",
  "A prediction is correct for a question with several accepted answers exactly when it matches at least one of them; the scoring script reports the fraction of records whose last boxed prediction, taken with its complete nested braces, is correct under the annotated answer, whatever surrounds the box, and counts records without a box as wrong.",
  ["inputs"], "all lists of accepted answers, all model outputs with nested braces, several boxes, text after the box, no box",
  "The script has no test.",
  ["demo.py", "example_tora_eval.py"],
  [("any-of answers", "demo.py:is_equiv_MATH"), ("box extraction and accuracy", "example_tora_eval.py:extract_boxed")],
  observe=["is_equiv_MATH(answers, prediction)", "output of example_tora_eval.py"])
P("E14", "Cosmetic rewriting of a real answer keeps it correct",
  "Every annotated benchmark answer is matched by any purely cosmetic rewriting of itself (dollar signs, spacing commands, \\left\\right, \\dfrac/\\tfrac/\\frac, \\text wrappers, thousands separators, outer blanks, harmless braces), in both argument orders, and by no answer obtained from it by changing one number.",
  ["inputs"], "all annotated answers times all combinations of cosmetic edits and numeric mutations",
  "5000 answers times exponentially many edit combinations.",
  [EV, LN, LP, "data/math_testset_annotation.json"],
  [("normalisation", LN + ":_string_normalize"), ("comparison cascade", EV + ":is_latex_equiv")],
  observe=["is_equiv(a, b)"])
P("E15", "Failures inside the algebra engine never change a verdict to equal",
  "If a simplification, evaluation or parsing step inside a comparison fails or runs out of time, at any point and any number of times, the comparison still returns a truth value, never matches answers that are not equal, still matches textually identical answers, and later comparisons are unaffected.",
  ["inputs", "fault_sequences"], "all pairs and all placements of engine errors",
  "Tests never inject engine failures.",
  [LP, EV],
  [("guards and time limits", LP + ":sympy_simplify, sympy_expand_equal, sympy_evalf, sympy_abs"), ("top-level guard", EV + ":is_equiv")],
  observe=["is_equiv(a, b) under injected failures"])
P("E16", "Normalisation is total, stable and value preserving",
  "Normalising any string never raises and returns a string or a set of strings; normalising a plain number, fraction or polynomial keeps its value and is idempotent; two strings with the same normal form always compare equal.",
  ["inputs"], "all strings; all numeric and polynomial answers with decorations",
  "Totality and idempotence are universally quantified.",
  [LN],
  [("normalisation", LN + ":string_normalize")],
  observe=["string_normalize(s)"])
P("E17", "Comparison treats both answers alike",
  "For exact answers (integers, fractions, exact expressions, tuples, sets, intervals, matrices, relations) that are equal or differ by more than the documented rounding tolerance comparison is symmetric, and answers that both match a third exact answer match each other.",
  ["inputs"], "all pairs and triples of exact answers over all kinds and notations",
  "Symmetry and transitivity quantify over pairs and triples.",
  [EV, LP, LN],
  [("comparison cascade", EV + ":is_latex_equiv, " + LP + ":are_equal_with_simplify")],
  observe=["is_equiv(a, b)"])
P("L01", "Type classification retries faults and reports the first good reply",
  "Asking a language model for an answer type sends one user message that contains the question and the answer once delimited by dollar signs, calls the model at most the allowed number of times, skips any sequence of errors and replies without a type line, returns exactly the text after the first reply's type marker, and returns nothing when every try fails; it never raises because of the model.",
  ["inputs", "fault_sequences"], "all questions and answers, all reply and failure sequences, all retry limits, both prompts",
  "There is no test of this code.",
  [LM, "math_evaluation/llms/prompts.py"],
  [("retry loop", LM + ":get_llm_type"), ("prompts", "math_evaluation/llms/prompts.py")],
  observe=["get_llm_type(call, question, answer, prompt_type, max_try)"])
P("L02", "Model clients are wired to the requested provider and model",
  "Creating a client for a provider uses that provider with the key from its environment variable and the requested model, every call passes the given messages unchanged with near-zero temperature and returns the reply text; clients are independent of each other, and unknown providers are refused.",
  ["inputs", "configurations", "histories"], "all sequences of client creations and calls over providers, models, keys and messages",
  "There is no test of this code.",
  [LM],
  [("client creation", LM + ":create_llm"), ("calls", LM + ":call_openai, call_tongyi")],
  observe=["create_llm(provider, model)(messages)"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PR:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
