#!/usr/bin/env python3
"""Writes DESIGN.md from the hand-written notes below, the checks' RULE texts, known_findings.jsonl and seeded/."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = r"""# Design

(Written by `tools/mkdesign.py` from its notes, the RULE text of each check, `known_findings.jsonl` and `seeded/`.)

## Technique

Property-based testing and fuzzing throughout. Every property is an executable statement over generated inputs, histories
or injected faults: `check.py <ID> [--tier quick|thorough] [--sub NAME] [--keep-going]` runs the Hypothesis strategies of
`vf/checks/<ID>.py` against the code in /repo's working tree (imported from there; nothing is built or copied, so a changed
tree is what is judged) and compares with an oracle that does not use the code under test.

* `vf/core.py` - runner. Work is cut into chunks; each chunk runs in a freshly forked child on one of 8 workers, with a
  seed that is a function of (VERIF_SEED, property, sub, chunk) only. A case that burns more than 200 CPU seconds is a hang
  (a violation: totality); a check that has no CPU left stops generating new chunks and reports how many it did not run.
  A failing case is shrunk (25 CPU s), confirmed by running it again in a fresh fork, written to
  `evidence/replay/<ID>-<sub>-<n>.json` and printed as `VIOLATION property=<ID> replay=<path>`;
  `check.py <ID> --replay <path>` runs it again. Evidence: cases generated, distinct non-trivial, discarded, samples.
* Failing set-up (e.g. the repository cannot be imported) is exit 1 with a violation: all properties need the code to load.
* Known findings are matched by the exact case class in `known_findings.jsonl`; nothing is written there at run time.
  At the time of writing every genuine defect found has been repaired in /repo by `fix:` commits (entries `fixed:`), so no
  KNOWN-FINDING line is printed.
* Thorough tier: the same statements with 12 times the cases (and deeper trees where a generator has a depth).

Independent oracles: exact Fractions / Gaussian rationals computed while a tree is generated (P01, P05, E02, E09), mpmath
evaluation of the generator's own tree (P02, P06, E03), an independent node-by-node walk over the parsed sympy tree
(`vf/ev.py`, which calls no sympy evaluation; unevaluated operators are replaced by numeric surrogates that depend on kind,
variable, bounds, direction and body), canonical interval sets (E05), brute-force matching (E04), reference state machines
(L01, L02, P08), an ASCII-math reader (`vf/asciimath.py`, P11), TeX's own bracket and argument rules (`vf/textoks.py`, P10).

## What was assumed and where the properties stop

Conventions of the code that are treated as its documented behaviour, not as defects, and which generators respect:

* Evaluator tolerance (read from the code and its README): ground truth 0: absolute 1e-3; |gt| >= 1: absolute 5e-3;
  0 < |gt| < 1: relative 1e-3; from 1e11 on exact. The band between is not judged. Typed and untyped comparison lower-case
  their arguments. `( )` and `[ ]` tuples differ untyped; row and column vectors agree; equations match up to sign only
  (2x=4 is not x=2); `x=1` matches `y=1`; `10\%` matches 10 and 0.1.
* Symbolic equality is sampled at positive points only; chained `0<x<2` compares by text; comma lists collapse duplicates;
  `(8, 100)` and `1 and 147/100` read as digit groups; unions with `\{3\}` are not intervals; `\{\}` is not `\emptyset`;
  `[[1,2]]` is not `[1,2]`; smallmatrix, `\langle`, `1 \pm i`, `101_{two}`, `AB_{16}`, `1,000_2`, `0.\overline{3}`, bare
  unary Unicode signs (`\u221a2`, `2\u03c0`, Unicode minus) and `\(...\)` are not notation the evaluator claims to know. Unit powers
  are dropped with the unit. In other threads than the main one there is no time limit.
* Parser: implicit multiplication binds tighter than `/`; `^` is left associative over braced chains; `-2^2` is -(2^2); the
  operators `\mod : \over \div \cdot \times / *` share one level; a function without parentheses takes the following product;
  `\sin^{-1}` is the inverse for nine names; `\log` is base 10; `f(x)` and `x(2)` (a letter before one atom in parentheses)
  are function applications, `x(y+1)` is a product; numbers are exact; digits separated by spaces join; `d` before a letter
  or a Greek letter is a differential; left-over closing brackets are tolerated; `x \in \mathbb{R}^{n\times m}` declares x until
  `set_variances({})`; `|A|` is Abs, not a determinant; matrix divided by matrix is refused; `\log_x^2 y`, `\gcd 4`,
  `\frac{d^2}{dx^2}` as an operator, `1.2.3` and an evaluation bar behind an operator are outside of the generated language.
* sympy's own slowness and bugs are not findings: cases in which sympy alone needs longer than 60 s are discarded
  (`core.patient`), as are values sympy cannot compute.
"""

NOTES = {
 "P01": "Tests list a few dozen literals; precedence mistakes need combinations (a quotient next to a sign next to a factorial) that only generation reaches.",
 "P02": "Every name x spelling x exponent x base x argument form, several thousand combinations, is drawn; nested calls expose where one function's argument ends.",
 "P03": "Identity of names is a statement about pairs of names over the whole alphabet (letters x accents x subscripts), and about placeholders in every position of a template.",
 "P04": "Operators in all spellings around arbitrary sides; `Eq` and friends must stay unevaluated even for equal or constant sides.",
 "P05": "Exact linear algebra over Fractions on the generator's side; eigen/singular decompositions are judged by A v = l v, orthonormality and U S V = A, so any valid answer passes.",
 "P06": "The surrogate operators make the comparison of unevaluated calculus exact in variable, bounds, direction and body without asking sympy to integrate. Several integrals in one text are a sub of their own. Limits: differential inside a fraction followed by another integral, `\\int dx \\int ...`, and integrands without a differential that start with a fraction are not generated.",
 "P07": "Metamorphic: any text of the language and any combination of typographic edits at any place. No reference value is needed; srepr must be identical. Left alone by the edits: inside of names' arguments and multi-character tokens, E-notation digits, braces that would change what a name or function is applied to (`f({x})`), braces in already braced sub/superscripts.",
 "P08": "Stateful: the oracle is the same call in a process that never ran the code, so any leak (module globals, caches, listener state, mutated arguments) is seen whatever it is.",
 "P09": "Round trip over both parsed and directly built objects. Not judged: Subs, conjugate, i printed as a symbol, two-sided limits `+-` (not expressible), infinite products.",
 "P10": "Completeness is judged by TeX's rules on the token list, not by the grammar under test.",
 "P11": "The reader implements ordinary ASCII-math precedence; what it reads must have the same value and names.",
 "E01": "Fuzzing with invariants only; hang detection by CPU time.",
 "E02": "Values are exact, so 'clearly different' is decided by exact arithmetic; every notation pair is reachable.",
 "E03": "Laws are cross-checked numerically in 40 digits before a case counts, so a wrong law in the generator cannot raise an alarm.",
 "E04": "Matching of unordered members is decided by brute force over permutations.",
 "E05": "The set is the reference; each text is one of many writings of it.",
 "E06": "Entry-wise reference; every environment pair.",
 "E07": "Polynomial reference decides whether two relations are the same up to moving terms and signs.",
 "E08": "All known units are enumerated (own copy of the list) times generated values.",
 "E09": "Closed-form angles give exact parts for exponential and trigonometric form.",
 "E10": "Differential typed/untyped over the generators of all other properties, plus collections with known verdicts.",
 "E11": "Each case is judged in seven environments; threads are sampled with a very small switch interval, schedules are not enumerated.",
 "E12": "Runs in a fork as root with scratch canaries only; payload effects are recorded by the audit hook and refused before they happen, so an escaped call cannot damage the sandbox.",
 "E13": "The real script is run on generated data sets in a scratch directory.",
 "E14": "The only property that uses the shipped data; edits are metamorphic.",
 "E15": "Fault injection at call boundaries: from the k-th call of an engine entry point, or at a random fraction of all calls in sympy/mpmath/antlr. Only 'never equal, never raise, no after-effect' is claimed; a fault may turn equal into different.",
 "E16": "Normal forms are compared by value with the text they came from.",
 "E17": "Relations between verdicts, no reference value needed; tolerance cases excluded since tolerance is not transitive.",
 "L01": "Reference retry machine over generated fault scripts; no network, the model is scripted.",
 "L02": "openai/dashscope are not installed: stand-in modules record the requests.",
}

def rule(pid):
    t = ast.parse(open(os.path.join(HERE, "vf/checks", pid + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE":
            return ast.literal_eval(n.value)

def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    claimed = {c["property"]: c for c in man["checks"]}
    fixed = {}
    for l in open(os.path.join(HERE, "known_findings.jsonl")):
        l = l.strip()
        if l.startswith("fixed:"):
            head, rest = l[len("fixed: property="):].split(" ", 1)
            fixed.setdefault(head, []).append(rest)
    seeds = {}
    for m in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
        d = json.load(open(m))
        seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
    out = [HEAD, "## Properties\n"]
    for p in props:
        pid = p["id"]
        out.append("### %s %s\n" % (pid, p["title"]))
        if pid not in claimed:
            out.append("Not claimed; see not_applicable in MANIFEST.json.\n"); continue
        out.append("*Generated and judged.* %s\n" % rule(pid))
        out.append("*Decided by.* %s. %s\n" % (claimed[pid]["technique"].rstrip("."), claimed[pid]["level_note"]))
        if NOTES.get(pid):
            out.append("*Notes.* %s\n" % NOTES[pid])
        for f in fixed.get(pid, []):
            out.append("* repaired defect: %s" % f)
        for s, d in seeds.get(pid, []):
            out.append("* planted bug `%s`: %s" % (s, d["what_it_breaks"]))
        out.append("")
    out.append("## Planted bugs and the checks that catch them\n")
    out.append(open(os.path.join(HERE, "tools/design_tail.md")).read())
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))

main()
