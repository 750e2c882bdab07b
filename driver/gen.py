"""Random derivations: well-formed documents of Typst's grammar with trivia in
arbitrary places.  Used as initial documents of the specification's state
machine (which computes what they mean)."""


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.budget = 0

    def c(self, *xs):
        return self.r.choice(xs)

    def sp(self):
        """Optional trivia where it does not matter."""
        return self.r.choices(["", " ", "/*c*/", " /*c*/ ", "  "], [60, 30, 3, 3, 4])[0]

    def sn(self):
        """Optional trivia including line breaks (inside parentheses)."""
        return self.r.choices(["", " ", "\n", "//c\n", "/*c*/", " \n "], [60, 22, 8, 3, 4, 3])[0]

    def many(self, f, sep=",", lo=0, hi=3, trail=True):
        xs = [self.sn() + f() + self.sn() for _ in range(self.r.randint(lo, hi))]
        s = sep.join(xs)
        if trail and xs and self.r.random() < .3:
            s += sep + self.sn()
        return s

    def ident(self):
        return self.c("a", "b", "x", "y", "f", "g-h", "_z", "é")

    def lit(self):
        return self.c("1", "2.5", "0x1f", "1pt", "3%", '"s"', '"a\\"b"', "none", "auto", "true", "<l>", "`r`", "```\n x\n ```", '""', "1e3")

    def expr(self, d=None):
        d = 4 if d is None else d
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            return self.c(self.ident(), self.lit())
        k = self.r.randrange(35) // 2
        e = lambda: self.expr(d - 1)
        if k <= 1:
            return self.ident()
        if k == 2:
            return self.lit()
        if k <= 5:
            op = self.c("+", "-", "*", "/", " and ", " or ", " in ", " not in ", "==", "!=", "<", "<=", ">", ">=", "=", "+=", "-=", "*=", "/=")
            return e() + self.sp() + op + self.sp() + e()
        if k == 6:
            return self.c("-", "+", "not ") + self.sp() + e()
        if k == 7:
            return "(" + self.sn() + e() + self.sn() + ")"
        if k == 8:
            return "(" + self.many(e, lo=0) + ")"
        if k == 9:
            return "(" + self.c("", ":") + self.many(lambda: self.c(self.ident(), '"k"', "(a)", self.ident()) + self.sp() + ":" + self.sp() + e(), lo=1) + ")"
        if k == 10:
            return self.callee(d) + self.args(d)
        if k == 11:
            return self.callee(d) + "." + self.ident()
        if k == 12:
            return self.c(self.ident(), "_", self.params(d), self.params(d)) + self.sp() + "=>" + self.sp() + e()
        if k == 13:
            return self.pattern(d, True) + self.sp() + "=" + self.sp() + e()
        if k == 14:
            return "{" + self.block(d) + "}"
        if k == 15:
            return "[" + self.markup(d - 1, True) + "]"
        return self.stmt(d) if k == 16 else self.equation(1)

    def callee(self, d):
        return self.c(self.ident(), self.ident() + "." + self.ident(), "(" + self.expr(d - 1) + ")", self.ident() + self.args(d - 1))

    def args(self, d):
        if d <= 0:
            return "()"
        def arg():
            k = self.r.randrange(5)
            if k == 0:
                return ".." + self.expr(d - 1)
            if k <= 2:
                return self.ident() + self.sp() + ":" + self.sp() + self.expr(d - 1)
            return self.expr(d - 1)
        s = "(" + self.many(arg) + ")" if self.r.random() < .8 else ""
        n = self.r.choice([0, 0, 1, 2]) if s else 1
        return s + "".join("[" + self.markup(d - 1, True) + "]" for _ in range(n))

    def params(self, d):
        def p():
            k = self.r.randrange(6)
            if k == 0:
                return ".." + self.c("", self.ident())
            if k <= 2:
                return self.ident() + self.sp() + ":" + self.sp() + self.expr(d - 1)
            if k == 3:
                return self.pattern(d - 1, False)
            return self.ident()
        return "(" + self.many(p) + ")"

    def pattern(self, d, reassign):
        leaf = lambda: self.c(self.ident(), "_", *( [self.ident() + "." + self.ident()] if reassign else []))
        if d <= 0:
            return leaf()
        def item():
            k = self.r.randrange(6)
            if k == 0:
                return ".." + self.c("", self.ident())
            if k == 1:
                return self.ident() + self.sp() + ":" + self.sp() + self.pattern(d - 1, reassign)
            if k == 2:
                return self.pattern(d - 1, reassign)
            return leaf()
        return "(" + self.many(item, lo=1) + ")"

    def stmt(self, d):
        e = lambda: self.expr(d - 1)
        b = lambda: self.c("{" + self.block(d - 1) + "}", "[" + self.markup(d - 1, True) + "]")
        k = self.r.randrange(13)
        if k == 0:
            return "let " + self.ident() + self.sp() + "=" + self.sp() + e()
        if k == 1:
            return "let " + self.ident() + self.params(d) + self.sp() + "=" + self.sp() + e()
        if k == 2:
            return "let " + self.pattern(d, False) + self.sp() + "=" + self.sp() + e()
        if k == 3:
            return "set " + self.c(self.ident(), "a.b") + self.args(d) + self.c("", " if " + e())
        if k == 4:
            return "show " + self.c("", self.ident(), self.callee(d)) + self.sp() + ":" + self.sp() + e()
        if k == 5:
            return "if " + e() + " " + b() + self.c("", " else " + b(), "\nelse " + b(), " else if " + e() + " " + b())
        if k == 6:
            return "for " + self.pattern(min(d, 1), False) + " in " + e() + " " + b()
        if k == 7:
            return "while " + e() + " " + b()
        if k == 8:
            return "import " + self.c('"m"', self.ident()) + self.c("", " as " + self.ident()) + self.c("", ": *", ": " + self.ident(), ": " + self.ident() + ", a.b as c",
                                                                                                        ": (" + self.sn() + "a" + self.sn() + "," + self.sn() + "b)")
        if k == 9:
            return "include " + self.c('"m"', e())
        if k == 10:
            return self.c("break", "continue", "return", "return " + e())
        if k == 11:
            return "context " + e()
        return "let " + self.ident()

    def block(self, d):
        n = self.r.randint(0, 3)
        s = self.sn()
        for i in range(n):
            s += self.c(self.expr, self.stmt)(d - 1) if d > 0 else self.ident()
            if i < n - 1:
                s += self.c("\n", ";", "; ", " ;\n", "\n\n", " //c\n")
        return s + self.sn()

    def embed(self, d):
        k = self.r.randrange(8)
        if k <= 1:
            return "#" + self.ident()
        if k == 2:
            return "#" + self.callee(d) + self.args(d)
        if k == 3:
            return "#" + self.stmt(d) + self.c(";", "\n", ";")
        if k == 4:
            return "#{" + self.block(d) + "}"
        if k == 5:
            return "#(" + self.sn() + self.expr(d) + self.sn() + ")"
        if k == 6:
            return "#[" + self.markup(d - 1, True) + "]"
        return "#" + self.ident() + "." + self.ident() + self.c("", ";", self.args(d))

    def inline(self, d):
        k = self.r.randrange(17)
        if k == 16 and d > 0:
            return self.equation(2)
        if k <= 4 or d <= 0:
            return self.c("a", "bc", "word", "x1", "é中", "...", "--", "~", "'", '"', "\\#", "\\u{41}", ":", "(", ")", "1.5", "https://a.b")
        if k <= 6:
            return "*" + self.inline(d - 1) + self.c("", " ", "\n") + self.inline(d - 1) + "*"
        if k == 7:
            return "_" + self.inline(d - 1) + self.c("", " ") + self.inline(d - 1) + "_"
        if k == 8:
            return self.c("`r`", "``", "```\n  a\n b\n ```", "```rs x```")
        if k == 9:
            return self.c("@ref", "@ref[" + self.markup(d - 1, True) + "]", "<lab>")
        if k == 10:
            return self.c("/*c*/", "//c\n", "\\\n", "\\ ")
        if k == 11:
            return "[" + self.inline(d - 1) + self.c("", " ", "\n") + self.inline(d - 1) + "]"
        return self.embed(d - 1)

    def matom(self, d):
        k = self.r.randrange(22)
        m = lambda: self.math(d - 1)
        if k <= 5 or d <= 0:
            return self.c("a", "x", "b", "pi", "sin", "1", "2.5", "10", "α", "\"s\"", "'", "é", "中", "x.y", "\\#", "\\u{41}")
        if k <= 7:
            return self.c("+", "-", "=", "->", "...", "<=", "!", ":", ",", ";", ".", "&", "|", "||", "*", "~", ")", "]", "\\\n", "\\ ", "<==>", ":=", "[|", "|]", "-->", ">>>")
        if k <= 10:
            o, e = self.c("()", "()", "()", "[]", "{}", ("[|", "|]"), ("(", "]"), "⟨⟩", "⎰⎱", ("(", "|]"))
            return o + self.sn() + m() + self.sn() + e
        if k <= 14:
            return self.c("f", "sin", "mat", "a.b", "vec", "frac", "op.x.y") + self.margs(d)
        if k == 15:
            return self.c("√", "∛", "∜") + self.sp() + self.matom(d - 1)
        if k == 16:
            return self.embed(min(d, 1))
        if k == 17:
            return self.matom(d - 1) + self.c("!", "'", "''", "'!")
        return self.matom(d - 1)

    def margs(self, d):
        def arg():
            k = self.r.randrange(8)
            if k == 0:
                return ".." + self.c("#a", "a", "(b)", "x y")
            if k <= 2:
                return self.c("a", "size", "k-v", "_", "b_c") + ":" + self.sp() + self.math(d - 1)
            if k == 3:
                return ""
            return self.math(d - 1)
        s = ""
        for i in range(self.r.randint(0, 4)):
            s += self.sn() + arg() + self.sn() + self.c(",", ",", ";")
        return "(" + (s if self.r.random() < .3 else s[:-1]) + ")"

    def math(self, d):
        self.budget -= 1
        if self.budget < 0 or d < 0:
            return "a"
        s = self.matom(d)
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])):
            s += self.c("_", "^", "/", "", " ", "_", "^", "/", " _ ", " ^ ", " / ", self.sn(), "'_", "'^", "! ") + self.matom(d)
        return s

    def equation(self, d):
        t = self.c("", " ", "\n", "/*c*/")
        return "$" + t + self.math(d) + self.c("", t) + "$"

    def line(self, d):
        return self.c(" ", "").join(self.inline(d) for _ in range(self.r.randint(1, 3)))

    def markup(self, d, inner=False):
        out = []
        ind = 0
        self.budget -= 1
        if self.budget < 0:
            return "a"
        for _ in range(self.r.randint(1, 2 if inner else 4)):
            k = self.r.randrange(12)
            pre = " " * ind
            if k <= 3:
                s = self.line(d)
            elif k == 4:
                s = self.c("= ", "== ", "=== ") + self.line(d)
            elif k <= 8:
                s = self.c("- ", "+ ", "1. ", "12. ", "/ T: ", "/ *t* u: ") + self.c(self.line(d), self.c("- ", "+ ") + self.line(d), "")
                ind = self.c(ind, ind + 2, 0, ind + 1)
            else:
                s = self.line(d)
                ind = self.c(0, ind, max(0, ind - 2))
            out.append(pre + s)
        return self.c("\n", "\n", "\n", "\n\n", "\r\n").join(out) + self.c("", "", "\n")

    def many_of(self, n, f, budget=30, limit=160):
        s = set()
        while len(s) < n:
            self.budget = budget
            t = f()
            if 0 < len(t) <= limit:
                s.add(t)
        return [[t] for t in sorted(s)]


def code_docs(rng, n, limit=120):
    g = Gen(rng)
    return g.many_of(n, lambda: g.block(4), limit=limit)


def markup_docs(rng, n, limit=120):
    g = Gen(rng)
    return g.many_of(n, lambda: g.markup(3), limit=limit)


def expr_docs(rng, n, limit=100):
    g = Gen(rng)
    return g.many_of(n, lambda: "#(" + g.sn() + g.expr(5) + g.sn() + ")", limit=limit)


def math_docs(rng, n, limit=80):
    g = Gen(rng)
    return g.many_of(n, lambda: g.c("", "", "a ", "#let x = ", "#f(") + g.equation(3), limit=limit)
