"""Queries and value expressions: their text and, independently, their meaning"""
import re
from datetime import date, timedelta

from .journal import dec, needs_quotes
from .model import F

OR, AND, CMP, ADD, MUL, PRIM = range(6)


class E:
    """`text` is how it is written, `fn(posting, txn, ledger)` what it is worth"""

    def __init__(self, text, fn, level=PRIM, numeric_end=False):
        self.text, self.fn, self.level, self.numeric_end = text, fn, level, numeric_end

    def at(self, level):
        """The text where something which binds at least as `level` is expected"""
        return self.text if self.level >= level else "(" + self.text + ")"


def arg(e):
    """As an argument, which can't begin with a dash"""
    return (" " if e.text.startswith("-") else "") + e.text


class TypeProblem(Exception):
    pass


def money_cmp(a, b):
    (ca, va), (cb, vb) = a, b
    if ca is not None and cb is not None and ca != cb:
        raise TypeProblem()
    return (va > vb) - (va < vb)


def as_num(x):
    return x[1] if isinstance(x, tuple) else x


class ExprGen:
    def __init__(self, rng, accounts, descs, comms, tags=(), values=(), notes=(), dates=()):
        self.rng = rng
        self.accounts, self.descs, self.comms = accounts, descs, comms
        self.tags, self.values, self.notes, self.dates = list(tags), list(values), list(notes), list(dates)
        self.nest, self.inside, self.dq = True, False, False

    def sp(self):
        return self.rng.choice(["", " ", " ", "  "])

    def glue(self, left, op):
        """An operator after `left`, with or without space around it"""
        r = self.rng
        a, b = r.choice(["", " ", " ", " ", "  "]), r.choice(["", " ", " ", " ", "  "])
        if op in ("and", "or"):
            return (a if left[-1] in ")/" else " ") + op + " " + b
        # these may be part of the name of a commodity
        if not a and op[0] in "-=&!" and not re.search(r"(amount|date|[)/'\"0-9])$", left):
            a = " "
        return a + op + b

    def fragment(self, names):
        """A regular expression which makes sense for one of the names"""
        r = self.rng
        n = r.choice(list(names)) if names else "x"
        if r.random() < 0.12:
            # a long piece of the name, with its spaces, colons and other letters
            i = r.randrange(len(n) or 1)
            if "@" in n and r.random() < 0.5:
                i = n.index("@")
            m = re.match(r"[\w :@]+", n[i:])
            if m and m.group().strip():
                return m.group().strip()[: r.choice([3, 8, 40])].strip()
        words = [w for w in re.split(r"[^A-Za-z]+", n) if w]
        w = r.choice(words) if words else "e"
        if r.random() < 0.5 and len(w) > 2:
            i = r.randrange(len(w) - 1)
            w = w[i:i + r.randint(1, 4)]
        k = r.random()
        if k < 0.1:
            return "^" + w
        if k < 0.2:
            return w + "$"
        if k < 0.3:
            m = r.choice(list(names))
            o = [x for x in re.split(r"[^A-Za-z]+", m) if x] or ["zz"]
            return w + "|" + r.choice(o)
        if k < 0.4 and len(w) > 1:
            return w[0] + "." + w[2:]
        if k < 0.42 and len(w) > 1:
            return r.choice(["%s[%s%s]" % (w[:-1], w[-1], r.choice("xyz")), "%s+" % w, "%s.*%s" % (w[0], w[-1]), "%sq?" % w,
                             "(%s|qq)" % w, "%s{1}" % w])
        if k < 0.46:
            return r.choice(["nothing like this", "[0-9]", ":", ".", "s$", "^[A-E]"])
        return w

    # booleans

    def boolean(self, depth=2):
        r = self.rng
        if depth > 0 and r.random() < 0.6:
            k = r.choice(["and", "or", "and", "or", "not", "any"])
            if k == "any" and self.inside:
                k = "not"
            if k == "not":
                x = self.boolean(depth - 1)
                k = r.random()
                if k < 0.3:
                    return E("(not (" + x.text + "))", lambda p, t, l: not x.fn(p, t, l))
                # it takes a comparison
                text = x.at(CMP)
                if k < 0.5:
                    return E("!" + self.sp() + text, lambda p, t, l: not x.fn(p, t, l), CMP)
                return E("not" + (self.sp() if text[0] == "(" else " ") + text, lambda p, t, l: not x.fn(p, t, l), CMP)
            if k == "any":
                # one inside another takes long in long transactions
                was, self.inside = self.inside, not self.nest
                x = self.boolean(depth - 1)
                self.inside = was
                return E("any(" + self.sp() + x.text + self.sp() + ")",
                         lambda p, t, l: any([x.fn(q, t, l) for q in t.postings] + [x.fn(p, t, l) and False]))
            xs = [self.boolean(depth - 1) for _ in range(r.choice([2, 2, 3, 4]))]
            lev = AND if k == "and" else OR
            text = ""
            for x in xs:
                if text:
                    text += self.glue(text, r.choice(["and", "and", "&"] if k == "and" else ["or", "or", "|"]))
                text += x.at(lev + 1)
            f = all if k == "and" else any
            return E(text, lambda p, t, l: f([x.fn(p, t, l) for x in xs]), lev)
        return self.atom()

    def atom(self):
        r = self.rng
        ks = ["account", "payee", "date", "amount", "amount", "num"]
        if self.tags:
            ks += ["has_tag", "tagre", "tageq"]
        if self.notes:
            ks += ["note"]
        k = r.choice(ks)
        op, yes = self.sp() + "=~" + self.sp(), True
        if r.random() < 0.15:
            op, yes = self.sp() + "!=" + self.sp(), False
        if k in ("account", "payee"):
            rx = self.fragment(self.accounts if k == "account" else self.descs)
            c = re.compile(rx)
            return E(k + op + "/" + rx + "/", lambda p, t, l: bool(c.search(getattr(p, k))) == yes, CMP)
        if k == "note":
            rx = self.fragment(self.notes)
            c = re.compile(rx)
            return E("note" + op + "/" + rx + "/", lambda p, t, l: any(c.search(n) for n in t.notes) == yes, CMP)
        if k == "has_tag":
            rx = self.fragment(self.tags)
            c = re.compile(rx)
            return E("has_tag(" + self.sp() + "/" + rx + "/" + self.sp() + ")",
                     lambda p, t, l: any(c.search(n) for n, _ in p.tags))
        if k == "tagre":
            rx, ry = self.fragment(self.tags), self.fragment(self.values or ["x"])
            c, d = re.compile(rx), re.compile(ry)

            def f(p, t, l):
                for n, v in p.tags:
                    if c.search(n):
                        return (v is not None and bool(d.search(v))) == yes
                return not yes
            return E("tag(/%s/)" % rx + op + "/%s/" % ry, f, CMP)
        if k == "tageq":
            n0, v0 = r.choice(self.tags), r.choice(self.values or ["x"])

            def f(p, t, l):
                for n, v in p.tags:
                    if n == n0:
                        return v == v0
                return False
            eq = r.choice(["==", "==", "!="])
            q = r.choice("'\"") if self.dq else "'"
            return E("tag(%s%s%s) %s %s%s%s" % (q, n0, q, eq, q, v0, q), lambda p, t, l: f(p, t, l) == (eq == "=="), CMP)
        name, f = self.compare()
        if k == "date":
            d = r.choice(self.dates) if self.dates else date(2020, 1, 1)
            d = d + timedelta(days=r.choice([0, 0, 1, -1, 30]))
            s = "to_date('%s')" % r.choice([d.isoformat(), "%d/%02d/%02d" % (d.year, d.month, d.day)])
            if r.random() < 0.3:
                return E(self.join(s, name, "date"), lambda p, t, l: f(d, t.date), CMP)
            return E(self.join("date", name, s), lambda p, t, l: f(t.date, d), CMP)
        if k == "num":
            a, b = self.number(2), self.number(1)
            return E(self.join(a.at(ADD), name, b.at(ADD)), lambda p, t, l: f(a.fn(p, t, l), b.fn(p, t, l)), CMP, True)
        # amounts: against a number, or against money of the same commodity
        a = self.money(1)
        if len(self.comms) == 1 and r.random() < 0.5:
            b = self.money(1)

            def g(p, t, l):
                x, y = a.fn(p, t, l), b.fn(p, t, l)
                if name in ("==", "!="):
                    same = x[1] == y[1] if x[0] is None or y[0] is None else x == y
                    return same == (name == "==")
                return f(money_cmp(x, y), 0)
            return E(self.join(a.at(ADD), name, b.at(ADD)), g, CMP, True)
        b = self.number(1)
        if r.random() < 0.2:
            return E(self.join(b.at(ADD), name, a.at(ADD)), lambda p, t, l: f(as_num(b.fn(p, t, l)), as_num(a.fn(p, t, l))), CMP,
                     True)
        return E(self.join(a.at(ADD), name, b.at(ADD)), lambda p, t, l: f(as_num(a.fn(p, t, l)), as_num(b.fn(p, t, l))), CMP, True)

    def compare(self):
        k = self.rng.choice([">", "<", ">=", "<=", "==", "!="])
        f = {">": lambda a, b: a > b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b,
             "==": lambda a, b: a == b, "!=": lambda a, b: a != b}[k]
        return k, f

    def join(self, left, op, right):
        return left + self.glue(left, op) + right

    # numbers

    def literal(self, zero=True):
        r = self.rng
        x = r.choice([F(0), F(1), F(2), F(3), F(10), F(100), F(1, 2), F(1, 4), F(33, 100), F(r.randrange(10 ** 6), 100),
                      F(r.randrange(10 ** 25)), F(12345678901234567890123, 10 ** 20)])
        if not zero and x == 0:
            x = F(7)
        return E(dec(x), lambda p, t, l: x, PRIM, True)

    def scalar(self, depth=1):
        """A number other than zero, perhaps an operation"""
        x = self.number(depth) if self.rng.random() < 0.4 else self.literal(zero=False)
        return x if x.fn(None, None, None) else self.literal(zero=False)

    def number(self, depth=2):
        r = self.rng
        if depth <= 0 or r.random() < 0.4:
            return self.literal()
        k = r.choice(["+", "-", "*", "/", "+-", "*/", "abs", "neg", "paren", "mix"])
        if k == "abs":
            x = self.number(depth - 1)
            return E("abs(" + x.text + ")", lambda p, t, l: abs(x.fn(p, t, l)))
        if k == "neg":
            x = self.number(depth - 1)
            return self.minus(x, lambda p, t, l: -x.fn(p, t, l))
        if k == "paren":
            x = self.number(depth - 1)
            return E("(" + x.text + ")", x.fn)
        if k in ("+", "-", "+-", "mix"):
            xs = [self.number(depth - 1) for _ in range(r.choice([2, 3, 4]))]
            ops = [r.choice("+-") for _ in xs[1:]]
            text = xs[0].at(ADD + (0 if xs[0].level != ADD else 1))
            for o, x in zip(ops, xs[1:]):
                text = self.join(text, o, x.at(MUL))

            def f(p, t, l):
                v = xs[0].fn(p, t, l)
                for o, x in zip(ops, xs[1:]):
                    w = x.fn(p, t, l)
                    v = v + w if o == "+" else v - w
                return v
            return E(text, f, ADD, True)
        n = r.choice([2, 3, 4])
        xs = [self.number(depth - 1)] + [self.scalar(depth - 1) for _ in range(n - 1)]
        ops = [r.choice("*/") for _ in xs[1:]]
        text = xs[0].at(PRIM)
        for o, x in zip(ops, xs[1:]):
            text = self.join(text, o, x.at(PRIM))

        def g(p, t, l):
            v = xs[0].fn(p, t, l)
            for o, x in zip(ops, xs[1:]):
                w = x.fn(p, t, l)
                v = v * w if o == "*" else v / w
            return v
        return E(text, g, MUL, True)

    def minus(self, x, f):
        """It takes what is next to it, before any other operation"""
        text = "-" + self.rng.choice(["", "", " "]) + x.at(PRIM)
        return E(text, f) if self.rng.random() < 0.6 else E("(" + text + ")", f)

    # money

    def comm(self, c):
        return '"%s"' % c if needs_quotes(c) else c

    def cash(self):
        """An amount written out"""
        r = self.rng
        c = r.choice(self.comms)
        x = r.choice([F(0), F(1), F(10), F(100), F(r.randrange(10 ** 6), 100), F(r.randrange(10 ** 4), 10)])
        q = self.comm(c).replace('"', "'")
        if q[0] == "'" and r.random() < 0.3 or c in ("EUR", "USD", "$", "€", "kg") and r.random() < 0.2:
            return E(q + r.choice([" ", "  "] + ["" for _ in q if q[0] == "'"]) + dec(x), lambda p, t, l: (c, x))
        if r.random() < 0.2:
            return E(dec(x) + q, lambda p, t, l: (c, x))
        return E(dec(x) + r.choice([" ", "  "]) + q, lambda p, t, l: (c, x))

    def money(self, depth=1):
        r = self.rng
        a = E("amount", lambda p, t, l: (p.comm, p.val))
        if depth <= 0 or r.random() < 0.4:
            return a if r.random() < 0.7 or len(self.comms) > 1 else self.cash()
        k = r.choice(["*", "/", "abs", "neg", "lmul", "paren"] + (["+", "-"] if len(self.comms) == 1 else []))
        x = self.money(depth - 1)
        if k == "abs":
            return E("abs(" + x.text + ")", lambda p, t, l: (lambda m: (m[0], abs(m[1])))(x.fn(p, t, l)))
        if k == "neg":
            return self.minus(x, lambda p, t, l: (lambda m: (m[0], -m[1]))(x.fn(p, t, l)))
        if k == "paren":
            return E("(" + x.text + ")", x.fn)
        if k in "+-":
            y = self.money(depth - 1)

            def f(p, t, l):
                (c1, v1), (c2, v2) = x.fn(p, t, l), y.fn(p, t, l)
                if c1 is not None and c2 is not None and c1 != c2:
                    raise TypeProblem()
                v = v1 + v2 if k == "+" else v1 - v2
                return (None if v == 0 else (c1 or c2), v)
            return E(self.join(x.at(ADD), k, y.at(MUL)), f, ADD)
        n = self.scalar()
        if k == "lmul":
            return E(self.join(n.at(MUL), "*", x.at(PRIM)), lambda p, t, l: (lambda m: (m[0], m[1] * n.fn(p, t, l)))(x.fn(p, t, l)),
                     MUL)
        return E(self.join(x.at(PRIM), k, n.at(PRIM)),
                 lambda p, t, l: (lambda m: (m[0], m[1] * n.fn(p, t, l) if k == "*" else m[1] / n.fn(p, t, l)))(
                     x.fn(p, t, l)), MUL, True)


# ------------------------------------------------------- command line queries


class QueryGen:
    """Queries as given in the command line, or in an automated transaction"""

    def __init__(self, rng, accounts, descs, tags=(), expr=None):
        self.rng, self.accounts, self.descs, self.tags = rng, accounts, descs, list(tags)
        self.eg = ExprGen(rng, accounts, descs, [])
        self.expr = expr  # an ExprGen, to use expressions too

    def mixcase(self, s):
        r = self.rng
        k = r.random()
        if k < 0.4 or "[" in s:
            return s
        return "".join(c.upper() if r.random() < 0.5 else c.lower() for c in s) if k < 0.7 else s.lower()

    def term(self, kinds=None):
        """(tokens, predicate)"""
        r = self.rng
        k = r.choice(kinds or ["acc", "acc", "acc", "payee", "rx"] + (["tag", "tag"] if self.tags else []) +
                     (["expr"] if self.expr else []))
        if k == "acc":
            rx = self.mixcase(self.eg.fragment(self.accounts))
            if rx in ("and", "or", "expr") or rx[0] == "@":
                rx = "(" + rx + ")"
            c = re.compile(rx, re.I)
            return [rx], lambda p, t, l: bool(c.search(p.account))
        if k == "rx":
            rx = self.eg.fragment(self.accounts) if r.random() > 0.02 else ""
            c = re.compile(rx)
            return ["/" + rx + "/"], lambda p, t, l: bool(c.search(p.account))
        if k == "payee":
            rx = self.mixcase(self.eg.fragment(self.descs))
            c = re.compile(rx, re.I)
            return ["@" + rx], lambda p, t, l: bool(c.search(p.payee))
        if k == "tag":
            rx = self.mixcase(self.eg.fragment(self.tags))
            c = re.compile(rx, re.I)
            return ["%" + rx], lambda p, t, l: any(c.search(n) for n, _ in p.tags)
        e = self.expr.boolean(1)
        return ["expr", arg(e)], e.fn

    def twin(self, toks):
        """The word of another term, looked for in another way"""
        r = self.rng
        words = [t for t in toks if t not in ("and", "or", "expr") and "=~" not in t] or ["e"]
        return self.about(r.choice(words).strip("/").lstrip("@%").strip("/"))

    def about(self, w):
        """A word, looked for in any way"""
        r = self.rng
        w = self.mixcase(w.lstrip("@%").strip() or "e")
        k = r.choice(["acc", "rx", "rx", "payee", "said"])
        if w in ("and", "or", "expr"):
            k = "rx"
        c = re.compile(w, re.I if k not in ("rx", "said") else 0)
        if k == "said":
            return ["expr", "payee =~ /%s/" % w], lambda p, t, l: bool(c.search(p.payee))
        if k == "payee":
            return ["@" + w], lambda p, t, l: bool(c.search(p.payee))
        return ["/" + w + "/" if k == "rx" else w], lambda p, t, l: bool(c.search(p.account))

    def query(self, n=None, kinds=None):
        """(arguments, predicate): the terms are alternatives, `and` binds tighter"""
        r = self.rng
        n = n or r.choice([1, 1, 2, 2, 3, 4, 5, 9])
        toks, groups = [], []
        few = None
        if n > 2 and kinds is None and r.random() < 0.25:
            # the same few words over and over
            few = [self.eg.fragment(r.choice([self.accounts, self.descs])) for _ in range(r.choice([1, 2, 3]))]
            n += r.choice([0, 3])
        for i in range(n):
            t, f = self.term(kinds) if not few else self.about(r.choice(few))
            if i and r.random() < 0.15:
                t, f = self.twin(toks) or (t, f)
            if i == 0:
                groups.append([f])
            else:
                k = r.choice(["and", "or", ""])
                if k:
                    toks.append(k)
                if k == "and":
                    groups[-1].append(f)
                else:
                    groups.append([f])
            toks += t
        return toks, lambda p, t, l: any(all([f(p, t, l) for f in g]) for g in groups)
