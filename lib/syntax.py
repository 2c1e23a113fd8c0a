"""Text of formulas with only the parentheses their tree needs (and some it does not), and free layout.

The table is the C-like one of the language (compiler/c2po/parse_c2po.py, parse_mltl.py), low to high;
binary operators of a row associate to the left."""
import random
import re

import bz
import logic

C2PO_ROWS = [["->", "xor", "<->"], ["||"], ["&&"], ["U", "R", "S", "T"], ["G", "F", "H", "O"], ["|"], ["^"], ["&"],
             ["==", "!="], [">", "<", ">=", "<="], ["+", "-"], ["*", "/", "%", "pow"], ["!", "~", "neg"]]
MLTL_ROWS = [["->", "<->"], ["|"], ["&"], ["U", "R", "S", "T"], ["!", "G", "F", "H", "O"]]
SPELL = {"!=": ["!=", "≠"], "!": ["!", "¬"], "&&": ["&&", "∧"], "||": ["||", "∨"], "->": ["->", "→"], "<->": ["<->", "↔"],
         ">=": [">=", "≥"], "<=": ["<=", "≤"], "*": ["*", "•", "⋅"], "/": ["/", "÷"]}
TOP = 99


def level(rows, op):
    return next(i for i, r in enumerate(rows) if op in r)


class Printer:
    def __init__(self, lang, seed, sub=None, redundant=0.15, mission=None):
        self.rng = random.Random(seed)
        self.rows = C2PO_ROWS if lang == "c2po" else MLTL_ROWS
        self.lang, self.sub, self.redundant, self.mission = lang, sub or {}, redundant, mission

    def spell(self, op):
        if self.lang == "c2po" and op in SPELL and self.rng.random() < 0.2:
            return self.rng.choice(SPELL[op])
        return op

    def bound(self, b):
        return "M" if self.mission is not None and b == self.mission and self.rng.random() < 0.7 else str(b)

    def interval(self, lb, ub):
        if lb == 0 and self.rng.random() < 0.4:
            return ["[", self.bound(ub), "]"]
        return ["[", self.bound(lb), ",", self.bound(ub), "]"]

    def wrap(self, tl, need):
        toks, l = tl
        if l < need or self.rng.random() < self.redundant:
            return ["("] + toks + [")"]
        return toks

    def binary(self, op, mid, a, b):
        l = level(self.rows, op)
        return self.wrap(a, l) + [self.spell(op)] + mid + self.wrap(b, l + 1), l

    def prefix(self, op, mid, a):
        l = level(self.rows, op)
        return [self.spell(op)] + mid + self.wrap(a, l), l

    def formula(self, p):
        """-> (tokens, level)"""
        op = p[0]
        if op == "a":
            s = self.sub.get(p[1], p[1])
            return ([s], TOP) if isinstance(s, str) else self.expr(s)
        if op in "tf":
            return ["true" if op == "t" else "false"], TOP
        if op == "!":
            return self.prefix("!", [], self.formula(p[1]))
        if op in logic.UN_T:
            return self.prefix(op, self.interval(p[1], p[2]), self.formula(p[3]))
        if op in logic.BIN_T:
            return self.binary(op, self.interval(p[1], p[2]), self.formula(p[3]), self.formula(p[4]))
        name = op * 2 if self.lang == "c2po" and op in "&|" else op
        r = self.formula(p[1])
        for c in p[2:]:
            r = self.binary(name, [], r, self.formula(c))
        return r

    def expr(self, e):
        """A booleanizer expression (lib/bz.py)."""
        op = e[0]
        if op in ("sig", "def"):
            return [e[1]], TOP
        if op in ("k", "kf", "kb"):
            s = bz.num(e)
            if s[0] == "-":  # the minus belongs to the literal; where it follows an operand it could not
                return ["(", s, ")"], TOP
            return [s], TOP
        if op == "tau":
            return ["TAU"], TOP
        if op == "prev":
            return ["prev", "(", bz.num(e[1]), ","] + self.expr(e[2])[0] + [")"], TOP
        if op in ("abs", "sqrt"):
            return [op, "("] + self.expr(e[1])[0] + [")"], TOP
        if op == "neg":
            t, l = self.prefix("neg", [], self.expr(e[1]))
            return ["-"] + t[1:], l
        if op == "~":
            return self.prefix("~", [], self.expr(e[1]))
        return self.binary(op, [], self.expr(e[1]), self.expr(e[2]))

    def layout(self, toks, newline="\n", comments=True):
        """Joins tokens; a blank goes wherever two of them would run together, else at random."""
        out = ""
        for t in toks:
            if out:
                k = self.rng.random()
                touch = re.match(r"\w", t[0]) and re.match(r"\w", out[-1]) or out[-1] + t[0] in JOIN or out[-1] == "." or t[0] == "."
                if self.lang == "c2po" and k < 0.06:
                    out += " -- a (comment && ; ) \n" if comments and k < 0.03 else newline
                elif touch or k < 0.6:
                    out += " " if k < 0.5 else "\t " if k < 0.55 else "  "
            out += t
        return out


# characters that would form another token
JOIN = {a + b for a in "-<>=!&|*/:." for b in "-<>=!&|*/:."}
