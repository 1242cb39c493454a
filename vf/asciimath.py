"""Reader of ASCII math: text -> vf.mtree tree.

sum := ["-"] product (("+"|"-") product)*;  product := unary (("*"|"/") unary)*;  power := postfix ["^" unary-or-group], left to right refused
A big operator (sum, prod, lim, int, d/dx) takes the product to its right; an integral ends at its differential."""
import re

TOKEN = re.compile(r"\s*(?:(\d+\.\d+(?:e[+-]?\d+)?|\.\d+|\d+)|(\\?[A-Za-z]+(?:_(?:\{\w+\}|\w))?)|(->|[-+*/^()|!,=_]))")
FN = {"ceiling": "ceil", "log": "ln", "ln": "ln"}
ONE = "sin cos tan csc sec cot asin acos atan acsc asec acot sinh cosh tanh asinh acosh atanh exp floor sqrt".split()
MANY = {"Max": "max", "Min": "min", "binomial": "binom", "Mod": "mod"}


class Unreadable(Exception):
    pass


class Reader:
    def __init__(self, text):
        self.text, self.toks, p = text, [], 0
        text = re.sub(r"\b(sum|prod|lim|int)_", r"\1 _", text)
        text = re.sub(r"\b(sum|prod|lim|int)\^", r"\1 ^", text)
        while p < len(text.rstrip()):
            m = TOKEN.match(text, p)
            if not m:
                raise Unreadable("at %r" % text[p:p + 10])
            kind = "num" if m.group(1) else "id" if m.group(2) else "op"
            self.toks.append((kind, m.group(m.lastindex)))
            p = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ("end", "")

    def take(self, want=None):
        t = self.peek()
        if want is not None and t[1] != want:
            raise Unreadable("expected %r, found %r in %r" % (want, t[1], self.text))
        self.i += 1
        return t

    def group(self):
        self.take("(")
        r = self.sum()
        self.take(")")
        return r

    def relation(self):
        l = self.sum()
        if self.peek()[1] == "=":
            self.take()
            l = ["eq", l, self.sum()]
        if self.peek()[0] != "end":
            raise Unreadable("left over %r in %r" % (self.peek()[1], self.text))
        return l

    def sum(self):
        neg = self.peek()[1] == "-"
        if neg:
            self.take()
        r = self.product()
        if neg:
            r = ["neg", r]
        while self.peek()[1] in ("+", "-"):
            o = self.take()[1]
            r = [o, r, self.product()]
        return r

    def product(self):
        r = self.power()
        while self.peek()[1] in ("*", "/"):
            o = self.take()[1]
            r = [o, r, self.power()]
        return r

    def power(self):
        r = self.postfix()
        if self.peek()[1] == "^":
            self.take()
            if self.peek()[1] == "(":
                e = self.group()
            else:
                k, t = self.take()
                if k not in ("num", "id"):
                    raise Unreadable("exponent %r in %r" % (t, self.text))
                e = ["num", t] if k == "num" else self.name(t)
            r = ["^", r, e]
            if self.peek()[1] in ("^", "!"):
                raise Unreadable("%r after a power in %r" % (self.peek()[1], self.text))
        return r

    def postfix(self):
        r = self.atom()
        if self.peek()[1] == "!":
            self.take()
            r = ["fn", "fact", r]
            if self.peek()[1] == "!":
                raise Unreadable("a double factorial in %r" % self.text)
        return r

    def name(self, t):
        return {"pi": ["pi"], "E": ["e"], "e": ["e"], "oo": ["inf"]}.get(t) or ["sym", t]

    def bounds(self):
        lo = hi = None
        while self.peek()[1] in ("_", "^"):
            o = self.take()[1]
            if o == "_":
                self.take("(")
                lo = self.sum()
                if self.peek()[1] == "=":
                    self.take()
                    lo = [lo, self.sum()]
                self.take(")")
            else:
                hi = self.group()
        return lo, hi

    def differential(self):
        """is the next token d<name>?"""
        k, t = self.peek()
        return k == "id" and t[0] == "d" and len(t) > 1

    def atom(self):
        k, t = self.take()
        if k == "num":
            return ["num", t]
        if t == "(":
            r = self.sum()
            self.take(")")
            return r
        if t == "|":
            r = self.sum()
            self.take("|")
            return ["abs", r]
        if k != "id":
            raise Unreadable("%r where an operand is expected in %r" % (t, self.text))
        if t in ("sum", "prod"):
            lo, hi = self.bounds()
            if not (isinstance(lo, list) and len(lo) == 2 and lo[0][0] == "sym" and hi):
                raise Unreadable("bounds of %s in %r" % (t, self.text))
            return [t, self.product(), lo[0][1], lo[1], hi]
        if t == "int":
            lo, hi = self.bounds()
            f = self.product()
            if not self.differential():
                raise Unreadable("an integral without differential in %r" % self.text)
            v = self.take()[1][1:]
            if self.peek()[1] in ("^", "!", "*", "/"):
                raise Unreadable("%r after a differential in %r" % (self.peek()[1], self.text))
            if lo is None and hi is None:
                return ["int", f, v]
            if lo is None or hi is None:
                raise Unreadable("one bound of an integral in %r" % self.text)
            return ["iint", f, v, lo, hi]
        if t == "lim":
            self.take("_")
            self.take("(")
            v = self.take()[1]
            self.take("->")
            d = None
            # the point may carry a side: ^+ or ^-
            depth, j = 0, self.i
            while depth or self.toks[j][1] != ")":
                depth += self.toks[j][1] == "("
                depth -= self.toks[j][1] == ")"
                j += 1
                if j >= len(self.toks):
                    raise Unreadable("limit in %r" % self.text)
            if self.toks[j - 1][1] in ("+", "-") and self.toks[j - 2][1] == "^":
                d = self.toks[j - 1][1]
                del self.toks[j - 2:j]
            p = self.sum()
            self.take(")")
            return ["lim", self.product(), v, p, d]
        if t == "d" and self.peek()[1] in ("/", "^"):
            n = 1
            if self.peek()[1] == "^":
                self.take()
                n = self.order()
            self.take("/")
            k, w = self.take()
            if k != "id" or w[0] != "d" or len(w) < 2:
                raise Unreadable("derivative in %r" % self.text)
            if n > 1:
                self.take("^")
                if self.order() != n:
                    raise Unreadable("orders of a derivative in %r" % self.text)
            r = self.product()
            for _ in range(n):
                r = ["diff", r, w[1:]]
            return r
        if self.peek()[1] == "(":
            self.take()
            args = [self.sum()]
            while self.peek()[1] == ",":
                self.take()
                args.append(self.sum())
            self.take(")")
            if t in ONE + list(FN) and len(args) == 1:
                return ["fn", FN.get(t, t), args[0]]
            if t in ("log", "ln") and len(args) == 2:
                return ["log", args[0], args[1]]
            if t in MANY:
                return [MANY[t]] + args
            raise Unreadable("function %s with %d arguments in %r" % (t, len(args), self.text))
        return self.name(t)

    def order(self):
        e = self.group() if self.peek()[1] == "(" else ["num", self.take()[1]]
        if e[0] != "num":
            raise Unreadable("order in %r" % self.text)
        return int(e[1])


def read(text):
    return Reader(text).relation()


def names(t):
    """all names, bound ones included"""
    if t[0] == "sym":
        return {t[1]}
    s = set()
    for i, x in enumerate(t[1:]):
        if isinstance(x, list):
            s |= names(x)
        elif t[0] in ("diff", "int", "iint", "sum", "prod", "lim") and i == 1:
            s.add(x)
    return s
