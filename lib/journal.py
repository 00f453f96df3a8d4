"""Journals: an abstract syntax, ways to write it down, and a generator."""
import copy
from dataclasses import dataclass, field, replace
from datetime import date, timedelta
from fractions import Fraction as F
from typing import List, Optional, Tuple

# ---------------------------------------------------------------- the syntax


@dataclass
class Amt:
    """An amount as it is written: digits and a commodity"""
    text: str
    comm: str

    @property
    def val(self):
        return F(self.text)


@dataclass
class Posting:
    account: str
    amt: Optional[Amt] = None
    kind: str = "R"  # R real, V (virtual), B [virtual, must balance]
    cost: Optional[Tuple[str, Amt]] = None  # "@" or "@@"
    bal: Optional[Amt] = None
    notes: List[str] = field(default_factory=list)  # comments
    expr: Optional[str] = None  # automated transactions only


@dataclass
class Txn:
    date: date
    desc: str
    postings: List[Posting]
    status: str = ""
    code: Optional[str] = None
    payee: Optional[str] = None
    effective: Optional[date] = None
    time: Optional[str] = None
    head: Optional[str] = None  # comment in the first line
    notes: List[str] = field(default_factory=list)  # comments before the postings


@dataclass
class Auto:
    query: str
    postings: List[Posting]
    notes: List[str] = field(default_factory=list)


@dataclass
class Price:
    date: date
    comm: str
    amt: Amt
    time: Optional[str] = None


@dataclass
class Directive:
    what: str  # account, payee, commodity, tag
    name: str
    props: List[Tuple[str, str]] = field(default_factory=list)

    @property
    def aliases(self):
        return [v for k, v in self.props if k == "alias"]


@dataclass
class Raw:
    text: str


@dataclass
class Include:
    pattern: str


def dec(x, places=None):
    """A terminating fraction in decimal notation"""
    x = F(x)
    n = 0
    y = abs(x)
    while y.denominator != 1:
        y *= 10
        n += 1
        if n > 400:
            raise ValueError(x)
    if places is not None and places > n:
        y *= 10 ** (places - n)
        n = places
    s = str(y.numerator)
    if n:
        s = s.rjust(n + 1, "0")
        s = s[:-n] + "." + s[-n:]
    return ("-" if x < 0 else "") + s


# ------------------------------------------------------------------ writing


class Style:
    """One way of writing journals. The default is the plain one of the documentation."""

    def __init__(self, rng=None, wild=0.0, crlf=False, final_newline=True):
        self.rng, self.wild = rng, wild
        self.crlf, self.final_newline = crlf, final_newline

    def maybe(self, p=1.0):
        return self.rng is not None and self.rng.random() < self.wild * p

    def indent(self):
        if self.maybe():
            return self.rng.choice([" ", "  ", "   ", "\t", "\t\t", "        ", " \t", "\t  "])
        return "    "

    def gap(self):
        if self.maybe():
            return self.rng.choice(["  ", "   ", "\t", "\t\t", "      ", "  \t", "                      ", "\t "])
        return "  "

    def sp(self):
        """Optional space between the parts of an amount"""
        if self.maybe():
            return self.rng.choice(["", " ", "  ", "   "])
        return " "

    def trail(self):
        if self.maybe(0.3):
            return self.rng.choice([" ", "  ", "\t", "   "])
        return ""

    def date(self, d):
        sep = "-"
        if self.maybe():
            sep = self.rng.choice("-/.")
        m, dd = "%02d" % d.month, "%02d" % d.day
        if self.maybe(0.5):
            m, dd = str(d.month), str(d.day)
        return "%04d%s%s%s%s" % (d.year, sep, m, sep, dd)

    def comm(self, c):
        if c == "":
            return ""
        if needs_quotes(c) or self.maybe(0.2):
            return '"%s"' % c
        return c

    def amt(self, a):
        c = self.comm(a.comm)
        t = a.text
        if self.maybe(0.4) and "." in t:
            t = t + "0" * self.rng.randint(1, 3)
        if self.maybe(0.2) and not t.startswith("-"):
            t = "0" * self.rng.randint(1, 2) + t
        if self.maybe(0.5) and c:
            s = self.sp()
            return c + s + t
        s = self.sp()
        return t + s + c

    def comment(self, text):
        if self.maybe(0.5):
            return ";" + self.rng.choice(["", " ", "  "]) + text
        return "; " + text


def needs_quotes(c):
    return any(ch.isspace() or ch.isdigit() or ch in '.-;"@=(' or ch in "+*/|%<>:?)[]{}" for ch in c)


def write_posting(p, st):
    acc = p.account
    acc = {"R": "%s", "V": "(%s)", "B": "[%s]"}[p.kind] % acc
    line = st.indent() + acc
    parts = []
    if p.expr is not None:
        parts.append(p.expr)
    if p.amt is not None:
        parts.append(st.amt(p.amt))
    if p.cost is not None:
        parts.append(p.cost[0] + st.sp() + st.amt(p.cost[1]))
    if p.bal is not None:
        parts.append("=" + st.sp() + st.amt(p.bal))
    if parts:
        line += st.gap() + " ".join(parts)
    notes = list(p.notes)
    if notes and not st.maybe(0.5):
        line += "  " + st.comment(notes.pop(0))
    else:
        line += st.trail()
    return [line] + [st.indent() + st.comment(n) for n in notes]


def write_item(it, st):
    if isinstance(it, Raw):
        return it.text.split("\n")
    if isinstance(it, Include):
        return ["include " + it.pattern]
    if isinstance(it, Price):
        return ["P %s%s %s%s%s %s" % (st.date(it.date), " " + it.time if it.time else "", st.comm(it.comm),
                                       " " * (st.rng.randint(1, 3) if st.maybe() else 1), it.amt.text,
                                       st.comm(it.amt.comm))]
    if isinstance(it, Directive):
        name = it.name
        if it.what == "commodity":
            name = '"%s"' % name if needs_quotes(name) else name
        lines = ["%s %s" % (it.what, name)]
        for k, v in it.props:
            lines.append("%s%s%s" % (st.indent(), k, " " + v if v else ""))
        return lines
    if isinstance(it, Auto):
        lines = ["= " + it.query]
        lines += [st.indent() + st.comment(n) for n in it.notes]
        for p in it.postings:
            lines += write_posting(p, st)
        return lines
    assert isinstance(it, Txn), it
    h = st.date(it.date)
    if it.time:
        h += " " + it.time
    if it.effective:
        h += "=" + st.date(it.effective)
    if it.status:
        h += " " + it.status
    if it.code is not None:
        h += ' ("%s")' % it.code
    h += " " * (st.rng.randint(1, 4) if st.maybe(0.4) else 1) + it.desc
    if it.payee is not None:
        h += (" | " if not st.maybe(0.5) else st.rng.choice(["|", "  |  ", " |", "| "])) + it.payee
    if it.head is not None:
        h += "  " + st.comment(it.head)
    lines = [h]
    lines += [st.indent() + st.comment(n) for n in it.notes]
    for p in it.postings:
        lines += write_posting(p, st)
    return lines


def write(items, st=None):
    st = st or Style()
    lines = []
    for it in items:
        if st.maybe(0.2):
            lines.append(st.rng.choice(["; a comment", "# another: one", "* org heading", "% x", "! y",
                                        "; :not:a:tag:"]))
        lines += write_item(it, st)
        if isinstance(it, (Price, Include)) and st.maybe():
            continue
        lines.append("")
        if st.maybe(0.2):
            lines += [""] * st.rng.randint(1, 3)
    eol = "\r\n" if st.crlf else "\n"
    if not st.final_newline:
        while lines and lines[-1] == "":
            lines.pop()
        return eol.join(lines)
    return eol.join(lines) + eol


# --------------------------------------------------------------- generating

COMMS = ["EUR", "USD", "GBP", "€", "$", "BTC", "kg", "Acme", "AAA"]
ODD_COMMS = ["Fund 2020", "VWRL.L", "mi moneda", "ñandú", "株", "a_b", "A'B", "X&Y", "M#1", "100"]
ACCOUNTS = [
    "Assets:Checking account", "Assets:Cash", "Assets:Savings", "Assets", "Assets:Cash:Wallet",
    "Expenses:Rent", "Expenses:Groceries", "Expenses:Travel:Flights", "Expenses:Travel:Flights:Far away",
    "Expenses:Travel", "Expenses", "Income:Salary", "Income:Interest", "Liabilities:Card", "Equity",
    "Equity:Opening balances", "Gastos:Año nuevo", "Ñoño:Señal", "Überweisung", "资产:现金",
    "Assets:Cash2", "Assetsx:Cash", "A:B:C:D:E:F:G", "A:B:C", "A:B:X", "Expenses:Tráfico (Madrid)", "a.b:c-d",
    "Assets:Cash:Wallet:Left pocket", "Expenses:R&D", "Expenses:50%", "Assets:Bank #1", "Deudas:Papá",
]
DESCS = ["Shop", "Rent", "Salary January", "Flights to Rome", "Café del Mar", "ATM", "Kiosk 24h", "Transfer",
         "Gift for Ann", "Ω store", "Dividend", "Repair", "Books & more", "O'Neill", "A-B.C, d", "ann@home", "24h shop",
         "Shop = 3 @ 4", "=x"]


LETTERS = ["abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "áéñöüçåæø", "αβγδλφω", "бгджи", "日本語円", "0123456789"]


PUNCT = ".-'&#%+*!?,~^$<>{}_@=/"


def word(r, n=None, odd=0.0):
    """A word which nobody has thought of; it begins with a letter"""
    first = r.choice(LETTERS[:2] * 3 + LETTERS[2:6])
    n = n or r.choice([1, 1, 2, 3, 4, 5, 6, 8, 13, 21, 34])
    out = [r.choice(first)]
    while len(out) < n:
        out.append(r.choice(r.choice(LETTERS[:1] * 8 + LETTERS)))
    if r.random() < odd:
        for _ in range(r.choice([1, 1, 2, 4])):
            out.insert(r.randint(1, len(out)), r.choice(PUNCT))
    return "".join(out)


def words(r, odd=0.1):
    return " ".join(word(r, odd=odd) for _ in range(r.choice([1, 1, 1, 2, 3])))


def prose(r):
    """Words, sometimes many"""
    if r.random() < 0.8:
        return words(r)
    return " ".join(words(r) for _ in range(r.choice([3, 8, 20, 60])))


def random_account(r):
    out = ":".join(words(r) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7, 11])))
    return out if not out.lower().endswith("unknown") else out + "x"


def random_commodity(r):
    if r.random() < 0.3:
        return words(r).replace("'", "")
    w = "".join(c for c in word(r) if not c.isdigit())
    return w or "Q"


class Gen:
    """Random journals whose meaning is known"""

    def __init__(self, rng, **kw):
        self.rng = rng
        self.accounts = kw.pop("accounts", None) or self.pick_some(ACCOUNTS, 3, 9, random_account)
        self.comms = kw.pop("comms", None) or self.pick_some(COMMS, 1, 4) + (
            [rng.choice(ODD_COMMS) if rng.random() < 0.7 else random_commodity(rng)] if rng.random() < kw.get("odd", 0.25) else [])
        self.comms = list({c.lower(): c for c in self.comms}.values())
        self.descs = kw.pop("descs", None) or self.pick_some(DESCS, 2, 5, prose)
        o = dict(odd=0.25, blank=0.45, cost=0.15, exchange=0.08, virtual=0.12, must=0.08, notes=0.2,
                 payee=0.15, effective=0.08, code=0.1, status=0.5, time=0.05, big=0.05, fine=0.1, zero=0.04,
                 max_postings=5, start=date(2019, 1, 1), days=700, same_day=0.3, tags=0.0, multi=0.25,
                 again=0.0, twins=0.0)
        o.update(kw)
        self.o = o
        self.last_date = None

    def pick_some(self, pool, lo, hi, more=None):
        some = self.rng.sample(pool, min(len(pool), self.rng.randint(lo, hi)))
        if more is not None and self.rng.random() < 0.2:
            # names nobody has thought of, in place of some of them
            for i in range(len(some)):
                if self.rng.random() < 0.4:
                    some[i] = more(self.rng)
            some = list({x.lower(): x for x in some}.values())
        return some

    def p(self, name):
        return self.rng.random() < self.o[name]

    def number(self, positive=False, nonzero=True):
        r = self.rng
        if self.p("big"):
            x = F(r.randrange(10 ** r.choice([12, 19, 20, 25, 40])))
            places = r.choice([0, 0, 2, 6])
            if r.random() < 0.4:
                x = F(2) ** r.choice([15, 16, 31, 32, 53, 63, 64, 127, 128]) + r.choice([-1, 0, 1])
            if places and r.random() < 0.5:
                x += F(r.randrange(10 ** places), 10 ** places)
        elif self.p("fine"):
            places = r.choice([3, 4, 5, 8, 15, 30])
            x = F(r.randrange(10 ** (places + r.randint(0, 3))), 10 ** places)
        else:
            places = r.choice([0, 0, 1, 2, 2, 2])
            x = F(r.randrange(1, 10 ** r.randint(1, 6)), 10 ** places)
            if self.o["again"] and self.p("again"):
                # one of a few, so that things cancel out and repeat
                x, places = F(r.choice([1, 1, 2, 10, 50])), r.choice([0, 2])
        if nonzero and x == 0:
            x = F(1, 10 ** places)
        if not positive and r.random() < 0.5:
            x = -x
        return x, places

    def amt(self, comm, **kw):
        x, places = self.number(**kw)
        return Amt(dec(x, places), comm)

    def a_date(self):
        if self.last_date is not None and self.p("same_day"):
            return self.last_date
        r = self.rng
        if r.random() < 0.05:
            self.last_date = r.choice([date(2020, 2, 29), date(2019, 12, 31), date(2020, 1, 1), date(2020, 12, 31),
                                       date(2019, 2, 28), date(2020, 3, 1), date(2019, 10, 10)])
        else:
            self.last_date = self.o["start"] + timedelta(days=r.randrange(self.o["days"]))
        return self.last_date

    def contribution(self, p):
        """What a posting adds to its transaction: (commodity, amount)"""
        if p.cost is None:
            return p.amt.comm, p.amt.val
        if p.cost[0] == "@":
            return p.cost[1].comm, p.cost[1].val * p.amt.val
        c = p.cost[1].val
        return p.cost[1].comm, -c if p.amt.val < 0 else c

    def maybe_cost(self, p):
        """Virtual postings have costs as well"""
        if self.o["cost"] and len(self.comms) > 1 and self.rng.random() < 0.25 and p.amt.val:
            oc = self.rng.choice([x for x in self.comms if x != p.amt.comm])
            p.cost = (self.rng.choice(["@", "@@"]), self.amt(oc, positive=True))

    def postings(self):
        """The postings of a balanced transaction"""
        r = self.rng
        n = r.randint(1, self.o["max_postings"] - 1)
        comms = [r.choice(self.comms)]
        if self.p("multi"):
            comms = self.pick_some(self.comms, 1, 3)
        ps = []
        for _ in range(n):
            c = r.choice(comms)
            p = Posting(r.choice(self.accounts), self.amt(c))
            if self.p("zero"):
                p.amt = Amt(r.choice(["0", "0.00"]), c)
            elif self.p("cost") and len(self.comms) > 1:
                oc = r.choice([x for x in self.comms if x != c])
                p.cost = (r.choice(["@", "@@"]), self.amt(oc, positive=True))
            ps.append(p)
            while self.o["twins"] and self.p("twins"):
                ps.append(copy.deepcopy(p))
        res = {}
        for p in ps:
            c, v = self.contribution(p)
            res[c] = res.get(c, F(0)) + v
        res = {c: v for c, v in res.items() if v}
        if self.p("blank"):
            ps.append(Posting(r.choice(self.accounts)))
            if r.random() < 0.3:
                r.shuffle(ps)
        else:
            for c, v in sorted(res.items()):
                if r.random() < 0.2:
                    # in two
                    w, _ = self.number()
                    ps.append(Posting(r.choice(self.accounts), Amt(dec(w), c)))
                    v = v + w
                ps.append(Posting(r.choice(self.accounts), Amt(dec(-v), c)))
            if self.p("exchange") and len(self.comms) > 1:
                # an exchange without an explicit price
                a, b = r.sample(self.comms, 2)
                ps = [Posting(r.choice(self.accounts), self.amt(a, positive=True))]
                x = self.amt(b, positive=True)
                ps.append(Posting(r.choice(self.accounts), Amt("-" + x.text, b)))
                if r.random() < 0.3:
                    ps += self.more_of(ps)
                if r.random() < 0.5:
                    ps.reverse()
        if self.p("virtual"):
            for _ in range(r.randint(1, 2)):
                p = Posting(r.choice(self.accounts), self.amt(r.choice(self.comms)), kind="V")
                self.maybe_cost(p)
                ps.insert(r.randrange(len(ps) + 1), p)
        if self.p("must"):
            a = self.amt(r.choice(self.comms))
            p = Posting(r.choice(self.accounts), a, kind="B")
            self.maybe_cost(p)
            c, v = self.contribution(p)
            ps.insert(r.randrange(len(ps) + 1), p)
            ps.insert(r.randrange(len(ps) + 1), Posting(r.choice(self.accounts), Amt(dec(-v), c), kind="B"))
        for p in ps:
            if self.p("notes"):
                p.notes = [r.choice(["a note", "see invoice 12", "ojo", "(check) = @ x", prose(r)])]
        return ps

    def more_of(self, ps):
        """More of the same exchange, and perhaps something which adds up to nothing"""
        r = self.rng
        out = []
        for _ in range(r.choice([1, 2, 4, 12])):
            p = r.choice(ps)
            x = self.amt(p.amt.comm, positive=True)
            out.append(Posting(r.choice(self.accounts), Amt(("-" if p.amt.val < 0 else "") + x.text, p.amt.comm)))
        if r.random() < 0.4:
            x = self.amt(r.choice(self.comms), positive=True)
            out += [Posting(r.choice(self.accounts), x), Posting(r.choice(self.accounts), Amt("-" + x.text, x.comm))]
        r.shuffle(out)
        return out

    def txn(self):
        r = self.rng
        t = Txn(self.a_date(), r.choice(self.descs), self.postings())
        if self.p("status"):
            t.status = r.choice(["*", "!"])
        if self.p("code"):
            t.code = r.choice(["123", "abc", "inv 2020-1"])
        if self.p("payee"):
            t.payee = r.choice(self.descs)
        if self.p("effective"):
            t.effective = t.date + timedelta(days=r.randint(0, 40))
        if self.p("time"):
            t.time = r.choice(["00:00:00", "09:30:15", "23:59:59", "20:00:00"])
        if self.p("notes"):
            t.head = r.choice(["a header note", "a header note", prose(r)])
        if self.p("notes"):
            t.notes = ["first note", "second note"][: r.randint(1, 2)]
        return t

    def journal(self, n=None):
        if n is None:
            n = self.rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
        return [self.txn() for _ in range(n)]
