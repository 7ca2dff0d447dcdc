"""
Independent reader of the expression language (recursive descent), from the documented
grammar. Gives the tuples of vf.expr, or raises Bad. Uses no code of /repo.
"""
import re
from fractions import Fraction as F

TOKEN = re.compile(
    r"[ \t\r\n]+|(?P<num>[0-9]+(?:\.[0-9]+)?)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)"
    r"|(?P<cmp><=|>=|=)|(?P<op>\.\.|[-+*/().,\[\]])"
)


class Bad(Exception):
    """the string is not in the language"""


class Unsure(Exception):
    """accepted by the grammar but given no documented meaning (nested comparisons)"""


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Bad(f"character {text[i]!r}")
        i = m.end()
        if m.lastgroup:
            v = m.group()
            if m.lastgroup == "id" and v in ("t", "sum", "sum_connections"):
                out.append((v, v))
            elif m.lastgroup in ("num", "id", "cmp"):
                out.append((m.lastgroup, v))
            else:
                out.append((v, v))
    out.append(("eof", ""))
    return out


class Reader:
    def __init__(self, text, variables, params, functions=("expec",)):
        self.toks = tokens(text)
        self.i = 0
        self.variables, self.params = variables, params
        self.functions = functions
        self.nested_cmp = False
        self.cmp_depth = 0

    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][0]

    def eat(self, kind):
        if self.peek() != kind:
            raise Bad(f"{kind} expected, {self.toks[self.i]} found")
        self.i += 1
        return self.toks[self.i - 1][1]

    def read(self):
        e = self.expr(True)
        self.eat("eof")
        if self.nested_cmp:
            raise Unsure()
        return e

    def name(self, n):
        if n in self.variables:
            return ("var", n)
        if n in self.params:
            return ("par", n)
        raise Bad(f"unknown name {n}")

    # comparison < additive < multiplicative < minus < primary
    def expr(self, top=False):
        left = self.additive()
        count = 0
        while self.peek() == "cmp":
            op = self.eat("cmp")
            left = ("cmp", op, left, self.additive())
            count += 1
        if count > 1 or (count and not top):
            self.nested_cmp = True
        return left

    def additive(self):
        left = self.multiplicative()
        while self.peek() in "+-":
            k = {"+": "add", "-": "sub"}[self.eat(self.peek())]
            left = (k, left, self.multiplicative())
        return left

    def multiplicative(self):
        left = self.unary()
        while self.peek() in "*/":
            k = {"*": "mul", "/": "div"}[self.eat(self.peek())]
            left = (k, left, self.unary())
        return left

    def unary(self):
        if self.peek() == "-":
            self.eat("-")
            return ("neg", self.unary())
        return self.primary()

    def index(self, base):
        self.eat("[")
        if self.peek() == "t":
            k = self.shift()
            self.eat("]")
            return ("shift", base, k)
        k = self.expr()
        self.eat("]")
        return ("eval", base, k)

    def primary(self):
        k = self.peek()
        if k == "num":
            return ("lit", F(float(self.eat("num"))))
        if k == "(":
            self.eat("(")
            e = self.expr()
            self.eat(")")
            if self.peek() == "[":
                return self.index(e)
            return e
        if k == "sum":
            self.eat("sum")
            self.eat("(")
            if self.peek() == "t":
                a = self.shift()
                self.eat("..")
                b = self.shift()
                self.eat(",")
                e = ("tsum", self.expr(), a, b)
            else:
                e = ("asum", self.expr())
            self.eat(")")
            return e
        if k == "sum_connections":
            self.eat(k)
            self.eat("(")
            p = self.eat("id")
            self.eat(".")
            f = self.eat("id")
            self.eat(")")
            return ("psum", p, f)
        if k == "id":
            n = self.eat("id")
            if self.peek() == ".":
                self.eat(".")
                return ("pf", n, self.eat("id"))
            if self.peek() == "(":
                self.eat("(")
                e = self.expr()
                self.eat(")")
                if n not in self.functions:
                    raise Bad(f"unknown function {n}")
                return ("expec", e)
            if self.peek() == "[":
                return self.index(self.name(n))
            return self.name(n)
        raise Bad(f"{self.toks[self.i]} unexpected")

    # t (+|-) operand { (+|-|*|/) operand }, operand = number | name | ( expr )
    def shift(self):
        self.eat("t")
        if self.peek() not in "+-":
            return ("lit", F(0))
        sign = self.eat(self.peek())
        left = self.operand()
        if sign == "-":
            left = ("neg", left)
        left = self.factors(left)
        while self.peek() in "+-":
            k = {"+": "add", "-": "sub"}[self.eat(self.peek())]
            left = (k, left, self.factors(self.operand()))
        return left

    def factors(self, left):
        while self.peek() in "*/":
            k = {"*": "mul", "/": "div"}[self.eat(self.peek())]
            left = (k, left, self.operand())
        return left

    def operand(self):
        k = self.peek()
        if k == "num":
            return ("lit", F(float(self.eat("num"))))
        if k == "id":
            return self.name(self.eat("id"))
        self.eat("(")
        e = self.expr()
        self.eat(")")
        return e


def read(text, variables, params):
    """tuple; Bad or Unsure otherwise. A string which is both is Bad."""
    return Reader(text, variables, params).read()
