"""Journals which use everything at once, and requests about them, with what the answer has to be.

The other generators look at one thing at a time; the ones here are for what happens when features meet.
"""
import calendar
import copy
import re
from datetime import date, timedelta

from .core import NOW, Violation
from .expr import ExprGen, arg, QueryGen, TypeProblem
from .journal import (ACCOUNTS, COMMS, DESCS, ODD_COMMS, Amt, Auto, Directive, Gen, Posting, Price, Txn, dec,
                      prose, random_account, random_commodity, words, write)
from .model import F, Ledger, Reject, Unclear
from .reports import amounts, check_flat, check_register, check_total, check_tree, parse_balance, register_expected
from .util import accepted, rejected, sample_of, style

SHORT = ["A", "Bb", "x:y", "z", "C3:d", "Ñ"]
DEEP = ["p:q:r:s:t:u:v:w:x:y", "p:q:r:s:t:u", "p:q:r:s:t:g", "p:q:r", "p:q:r:s:x:y:z"]
LONG = ["Assets:A bank with a very long name indeed:Current account of the company", "Expenses:" + ":".join(["Level"] * 7),
        "Una cuenta con un nombre larguísimo y además con eñes:ñ"]
LONG_DESCS = ["A description which is quite a bit longer than the column there is for it", "Supermercado El Árbol de la esquina (2)",
              "x", "Payment to Dr. Smith, dentist, second instalment of three", "ÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑÑ"]
MORE_COMMS = COMMS + ["CHF", "oz", "Aa", "h", "pts"]
TAGS = ["food", "Trip", "project", "big spender", "food2", "TRIP", "x", "año"]
VALUES = ["x", "some value", "Rome", "12", "rome"]
PLAIN = ["nothing here", "see invoice 12", "100 EUR = 3", "", "", "(ojo) @ 3", "food", ":food: is not the end"]

DEFAULT = dict(asserts=0.4, rules=0.3, directives=0.4, respell=0.5, prices=0.4, autos=0.3, tags=0.5, split=0.0, shuffle=0.5,
               long=0.12, size=None, real_autos=0.25, huge=0.01, rate=None, wrong_autos=0.07)


def some_tags(r, names, values):
    """Names and values of tags, some of which nobody has thought of"""
    if r.random() < 0.6:
        return names, values
    names = names[:2] + [w for w in (words(r, 0.4).replace("'", "").replace("/", "") for _ in range(r.randint(1, 5)))]
    values = values[:2] + [w for w in (prose(r).replace("'", "").replace("/", "") for _ in range(r.randint(1, 5)))]
    return list({n.lower(): n for n in names}.values()), list({v.lower(): v for v in values}.values())


def some_note(rng, tags=TAGS, values=VALUES):
    k = rng.random()
    if k < 0.3:
        names = rng.sample(tags, min(len(tags), rng.choice([1, 1, 2, 3, 5])))
        return rng.choice(["", "", "text ", words(rng) + " "]) + ":" + ":".join(names) + ":"
    if k < 0.55:
        return "%s:%s%s" % (rng.choice(tags), rng.choice([" ", " ", "", "  "]), rng.choice(values))
    return rng.choice(PLAIN + [prose(rng)])


class World:
    def __init__(self, rng, **kw):
        self.rng = rng
        o = dict(DEFAULT)
        for k in DEFAULT:
            if k in kw:
                o[k] = kw.pop(k)
        self.o = o
        self.table = {}
        self.kw = kw
        self.items, self.led, self.verdict = None, None, None
        for _ in range(6):
            self.make()
            if self.verdict is not None:
                break

    def p(self, k):
        return self.rng.random() < self.o[k]

    # ------------------------------------------------------------ making it

    def make(self):
        r = self.rng
        pool = ACCOUNTS + SHORT * 2 + DEEP + LONG
        accounts = list(dict.fromkeys(r.sample(pool, r.randint(3, 9))))
        if r.random() < 0.1:
            accounts = list(dict.fromkeys(accounts + DEEP))
        comms = r.sample(MORE_COMMS, r.choice([1, 2, 2, 3, 4, 7, 12])) + (r.sample(ODD_COMMS, 1) if r.random() < 0.2 else [])
        descs = r.sample(DESCS, r.randint(2, 4)) + r.sample(LONG_DESCS, r.choice([0, 0, 1, 2])) + (
            [prose(r)] if r.random() < 0.1 else [])
        kw = dict(accounts=accounts, comms=comms, descs=descs, payee=0.25, notes=0.05, virtual=0.15, must=0.1,
                  cost=0.18, exchange=0.1, multi=r.choice([0.1, 0.5]), big=r.choice([0, 0.02, 0.2]),
                  fine=r.choice([0, 0.1, 0.5]), days=r.choice([1, 4, 60, 700]), same_day=r.choice([0.1, 0.6]),
                  effective=0.1)
        if r.random() < 0.25:
            mine = [random_account(r) for _ in range(r.randint(1, 12))]
            if r.random() < 0.5:
                # some below others
                mine += [r.choice(mine) + ":" + words(r) for _ in range(r.randint(1, 6))]
            kw["accounts"] = list({a.lower(): a for a in r.sample(accounts, r.randint(0, len(accounts))) + mine}.values())
        if r.random() < 0.15:
            new = [random_commodity(r) for _ in range(r.randint(1, 8))]
            kw["comms"] = list({c.lower(): c for c in comms[:2] + new}.values())
        if r.random() < 0.2:
            kw["descs"] = descs[:1] + [words(r) for _ in range(r.randint(1, 5))]
        kw["again"] = r.choice([0, 0, 0.3, 0.9])
        kw["twins"] = r.choice([0, 0, 0.1, 0.5])
        kw["start"] = date(r.choice([2019, 2019, 2019, 1999, 1969, 1900, 2018, 2037, 2100, 1970, 1600, 2400, 9000, r.randint(1000, 9900)]),
                           r.randint(1, 12), r.randint(1, 28))
        kw.update(self.kw)
        accounts, comms, descs = kw["accounts"], kw["comms"], kw["descs"]
        self.g = g = Gen(r, **kw)
        n = self.o["size"] or r.choice([1, 2, 3, 5, 8, 13])
        if self.p("huge"):
            n = r.choice([40, 90, 150])
        items = []
        for _ in range(n):
            if self.p("long"):
                keep = g.o["max_postings"]
                g.o["max_postings"] = r.choice([9, 14, 30])
                items.append(g.txn())
                g.o["max_postings"] = keep
            else:
                items.append(g.txn())
            if g.o["twins"] and g.p("twins"):
                items.append(copy.deepcopy(items[-1]))
        self.tagged = self.p("tags")
        self.tags, self.values = some_tags(r, TAGS, VALUES)
        if self.tagged:
            note = lambda r: some_note(r, self.tags, self.values)
            rate = r.choice([0.1, 0.3, 0.7])
            for t in items:
                if r.random() < rate / 2:
                    t.head = note(r) or "h"
                while r.random() < rate:
                    t.notes.append(note(r))
                for p in t.postings:
                    while r.random() < rate:
                        p.notes.append(note(r) or ":x:")
        extra = []
        if self.p("rules"):
            extra += self.rules(items, descs)
        try:
            led = Ledger(items + extra)
        except Reject:
            led = None
        except Unclear:
            return
        if led is not None and self.p("asserts"):
            self.assertions(led, comms)
        if self.p("prices") and len(comms) > 1:
            for _ in range(r.choice([1, 3, 8])):
                a, b = r.sample(comms, 2)
                p = Price(g.a_date(), a, g.amt(b, positive=True))
                if r.random() < 0.2:
                    p.time = r.choice(["00:00:00", "12:30:00", "23:59:59"])
                extra.append(p)
        autos = self.autos(items) if self.p("autos") else []
        extra += autos
        declared = {}
        if self.p("directives"):
            have = {(d.what, d.name.lower()) for d in extra if isinstance(d, Directive)}
            for what, names in (("account", accounts), ("commodity", comms)):
                for i, n in enumerate(names):
                    if r.random() < 0.5 and (what, n.lower()) not in have:
                        al = [["%s-alias-%s" % (what, chr(97 + i)), "Otro %s" % chr(97 + i), "Ñú%s" % chr(97 + i)][k]
                              for k in r.sample(range(3), r.choice([0, 1, 1, 2]))]
                        extra.append(Directive(what, n, [("alias", x) for x in al] + (
                            [("note", "a note")] if r.random() < 0.2 else [])))
                        declared[(what, n)] = [n] + al
            if r.random() < 0.3:
                extra.append(Directive("tag", r.choice(self.tags)))
            if r.random() < 0.2:
                extra.append(Directive("account", "Never:Used"))
                extra.append(Directive("commodity", "NVR"))
        if declared and self.p("respell"):
            self.respell(items + extra, declared)
        order = list(items)
        if self.p("shuffle"):
            days = {}
            for t in items:
                days.setdefault(t.date, []).append(t)
            slots = [t.date for t in items]
            r.shuffle(slots)
            its = {d: iter(v) for d, v in days.items()}
            order = [next(its[d]) for d in slots]
        # the directives go anywhere, in any order, but for the automated transactions and prices among themselves
        where = sorted(r.randrange(len(order) + 1) for _ in extra)
        seq = [e for e in extra if isinstance(e, Directive)]
        r.shuffle(seq)
        rest = iter([e for e in extra if not isinstance(e, Directive)])
        slots = ["d"] * len(seq) + ["r"] * (len(extra) - len(seq))
        r.shuffle(slots)
        seq = iter(seq)
        mixed = [next(seq) if s == "d" else next(rest) for s in slots]
        for k, (w, e) in enumerate(zip(where, mixed)):
            order.insert(w + k, e)
        self.items, self.autos_, self.extra = order, autos, extra
        self.judge()

    def judge(self):
        """What the reference says of the items there are"""
        try:
            self.led = Ledger(self.items, match=self.match)
            self.verdict = "ok"
        except Reject as e:
            self.led, self.verdict = e, "reject"
        except (Unclear, TypeProblem):
            self.led, self.verdict = None, None
        self.comms = set(self.led.comms.names.values()) if self.verdict == "ok" else set(self.g.comms)
        return self.verdict

    def reorder(self):
        """The same items in an order which means the same"""
        r = self.rng
        groups = {}

        def key(e):
            return e.date if isinstance(e, Txn) else type(e).__name__ if not isinstance(e, Directive) else id(e)
        for e in self.items:
            groups.setdefault(key(e), []).append(e)
        slots = [key(e) for e in self.items]
        r.shuffle(slots)
        its = {k: iter(v) for k, v in groups.items()}
        return [next(its[k]) for k in slots]

    @property
    def dates(self):
        return [t.date for t in self.items if isinstance(t, Txn)]

    def command(self, kinds=None, **sel):
        """A command with its options, without the file"""
        r = self.rng
        what = r.choice(kinds or ["flat", "tree", "reg", "reg", "convert", "accounts", "payees", "commodities", "prices", "check"])
        if what not in ("flat", "tree", "reg", "convert"):
            return [what]
        opts, q = [], []
        if self.verdict == "ok":
            opts, q, _ = self.selection(**sel)
        if what == "reg":
            return ["reg"] + opts + q
        if what == "convert":
            return ["bal", "-X", r.choice(sorted(self.comms))] + (["--flat"] if r.random() < 0.5 else []) + opts + q
        return ["bal"] + (["--flat"] if what == "flat" else []) + (["--depth", str(r.choice([1, 2, 3, 6]))] if r.random() < 0.3
                                                                   else []) + opts + q

    def match(self, text, p, t, led, amount=False):
        v = self.table[text](p, t, led)
        if amount:
            return v if isinstance(v, tuple) else (p.comm, p.val * v)
        return v

    def rules(self, items, descs):
        r = self.rng
        out = []
        used = set()
        for name in r.sample(["The landlord", "Acme & Co", "Ünal", r.choice(descs)], r.randint(0, 2)):
            props = []
            for d in r.sample(descs, r.randint(0, 2)):
                if d in used or d == name:
                    continue
                used.add(d)
                w = re.escape(d) if r.random() < 0.7 else re.escape(d[: max(1, len(d) // 2)].rstrip())
                w = w.replace("\\ ", " ").replace("\\&", "&").replace("\\'", "'")
                props.append(("alias", r.choice(["^%s$" if len(w) >= len(d) else "^%s", "%s"]) % w))
            out.append(Directive("payee", name, props))
        unknown = r.choice(["Expenses:Unknown", "Unknown", "Assets:unknown", "X:UNKNOWN"])
        if r.random() < 0.6:
            for t in items:
                for p in t.postings:
                    if r.random() < 0.25:
                        p.account = unknown
            for name in r.sample(["Expenses:Food", "Expenses:Home"] + self.g.accounts[:1], r.randint(0, 2)):
                d = r.choice(descs + ["landlord", "Acme"])
                out.append(Directive("account", name, [("payee", re.escape(d).replace("\\ ", " ").replace(
                    "\\&", "&").replace("\\'", "'"))]))
        return out

    def assertions(self, led, comms):
        """Assert what the reference says, as it is reached; some of it becomes an assignment"""
        r = self.rng
        running = {}
        rate = self.o["rate"] or r.choice([0.1, 0.4])
        for t in led.txns:
            for p in t.postings:
                if p.kind != "R":
                    continue
                b = running.setdefault(p.account, {})
                if p.comm is not None:
                    b[p.comm] = b.get(p.comm, F(0)) + p.val
                if p.origin != "txn" or r.random() > rate or p.src.amt is None:
                    continue
                comm = p.src.amt.comm if r.random() < 0.85 else r.choice(comms)
                p.src.bal = Amt(dec(b.get(led.comms.get(comm) if led.comms.has(comm) else comm, F(0))), comm)
                others = [c for c, v in b.items() if c != comm and v]
                if not others and comm == p.src.amt.comm and not p.src.cost and r.random() < 0.3:
                    p.src.amt = None
        return

    def autos(self, items):
        r, g = self.rng, self.g
        eg = ExprGen(r, g.accounts, g.descs, g.comms, self.tags, self.values, [], [t.date for t in items])
        eg.nest = all(len(t.postings) <= 12 for t in items)
        targets = g.accounts[:2] + ["Budget", "Budget:Detail", "Savings:Auto"]
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.3:
                e = eg.boolean(1)
                while '"' in e.text:
                    e = eg.boolean(1)
                text, pred = 'expr "%s"' % e.text, e.fn
            else:
                qg = QueryGen(r, g.accounts, g.descs, self.tags)
                while True:
                    toks, pred = qg.query(r.choice([1, 1, 2, 3]))
                    if not any(" " in x for x in toks):
                        break
                text = " ".join(toks)
            self.table[text] = pred
            ps, back = [], []
            kind = r.choice("VVB") if not self.p("real_autos") else "R"
            for _ in range(r.choice([1, 1, 2, 3, 6])):
                acc, other = r.choice(targets), r.choice(targets)
                k = r.choice(["mult", "mult", "fixed", "expr", "num"])
                if k == "mult":
                    a = r.choice(["2", "-1", "1", "0.5", "-0.21", "100", "0.123456789012"])
                    ps.append(Posting(acc, Amt(a, ""), kind=kind))
                    back.append(Posting(other, Amt(dec(-F(a)), ""), kind=kind))
                elif k == "fixed":
                    a, c = r.choice(["10", "-3.50", "0.001"]), r.choice(g.comms + ["NEW"])
                    ps.append(Posting(acc, Amt(a, c), kind=kind))
                    back.append(Posting(other, Amt(dec(-F(a)), c), kind=kind))
                else:
                    e = eg.number(2) if k == "num" else eg.money(2)
                    if '"' in e.text:
                        continue
                    x, y = "(" + e.text + ")", "(-(" + e.text + "))"
                    self.table[x] = e.fn
                    if k == "num":
                        self.table[y] = lambda p, t, l, e=e: -e.fn(p, t, l)
                    else:
                        self.table[y] = lambda p, t, l, e=e: (lambda m: (m[0], -m[1]))(e.fn(p, t, l))
                    ps.append(Posting(acc, kind=kind, expr=x))
                    back.append(Posting(other, kind=kind, expr=y))
            if kind != "V" and not self.p("wrong_autos"):
                ps += back
            if not ps:
                continue
            a = Auto(text, ps)
            while r.random() < 0.35:
                a.notes.append(r.choice([":auto:", "auto: yes", ":Trip:", "nothing", ":x:food:", some_note(r, self.tags, self.values) or "h"]))
            out.append(a)
        return out

    def respell(self, items, table):
        from .props.c17 import recase
        r = self.rng
        rate = r.choice([0.2, 0.7])

        def sp(what, n):
            k = (what, n)
            if k not in table or r.random() > rate:
                return n
            s = r.choice(table[k])
            return recase(r, s) if r.random() < 0.4 else s
        for it in items:
            if isinstance(it, (Txn, Auto)):
                for p in it.postings:
                    p.account = sp("account", p.account)
                    for a in (p.amt, p.cost[1] if p.cost else None, p.bal):
                        if a is not None and a.comm:
                            a.comm = sp("commodity", a.comm)
            elif isinstance(it, Price):
                it.comm, it.amt.comm = sp("commodity", it.comm), sp("commodity", it.amt.comm)

    # ------------------------------------------------------------- writing

    def put(self, ctx, name="j.ledger", split=None):
        r = self.rng
        if split is None:
            split = self.p("split")
        if split:
            from .props.c18 import Splitter
            sp = Splitter(r)
            sp.put(name, self.items)
            for f, text in sp.files.items():
                ctx.write(f, text)
            ctx.count["world_files"] += len(sp.files)
        else:
            ctx.write(name, write(self.items, style(r)))
        return name

    # ------------------------------------------------------------ requests

    def selection(self, query=0.4, limits=0.25, real=0.2, exprs=0.5, about=None):
        """(arguments before the query, query, predicate)"""
        r, led = self.rng, self.led
        opts, q, preds = [], [], []
        if r.random() < limits:
            d = r.choice(led.txns).date + timedelta(days=r.choice([0, 0, 1, -1]))
            opts += [r.choice(["-b", "--begin"]), d.isoformat()]
            preds.append(lambda t, p, d=d: t.date >= d)
        if r.random() < limits:
            d = r.choice(led.txns).date + timedelta(days=r.choice([0, 1, 1, 2]))
            opts += [r.choice(["-e", "--end"]), d.isoformat()]
            preds.append(lambda t, p, d=d: t.date < d)
        if r.random() < real:
            opts.insert(r.choice([0, len(opts)]), "--real")
            preds.append(lambda t, p: p.kind == "R")
        if r.random() < query:
            accs = sorted(led.accounts.names.values())
            pays = sorted(led.payees.names.values())
            coms = sorted(self.comms)
            notes = [n for t in led.txns for n in t.notes]
            tags = self.tags if self.tagged else []
            # comparisons of amounts of different commodities have no meaning
            eg = ExprGen(r, accs, pays, coms, tags, self.values, notes, [t.date for t in led.txns])
            eg.nest = all(len(t.postings) <= 12 for t in led.txns)
            eg.dq = True
            if r.random() < exprs:
                if about == "tags":
                    from .props.c19 import only_tags
                    e = only_tags(eg, r, r.choice([0, 1, 2]), self.tags, self.values)
                else:
                    e = eg.boolean(r.choice([0, 1, 2]))
                q, f = ["expr", arg(e)], e.fn
            else:
                qg = QueryGen(r, accs, pays, tags)
                q, f = qg.query(kinds=["tag"] if about == "tags" else None)
            preds.append(lambda t, p, f=f: f(p, t, led))
        if not preds:
            return opts, q, None
        return opts, q, lambda t, p: all(f(t, p) for f in preds)

    def ask(self, ctx, what=None, name="j.ledger", more=(), **sel):
        """Runs a command, compares all of its output with the reference"""
        r, led = self.rng, self.led
        what = what or r.choice(["flat", "flat", "tree", "tree", "reg", "reg", "reg", "convert", "accounts", "payees",
                                 "commodities", "prices", "check"])
        ctx.count["asked_" + what] += 1
        more = list(more)
        if what in ("flat", "tree", "reg"):
            opts, q, keep = self.selection(**sel)
            color = []
            if what == "reg":
                res = ctx.run(r.choice(["reg", "register"]), "-f", name, *opts, *more, *q)
                accepted(ctx, res)
                check_register(res.out, register_expected(led, keep), ctx)
            else:
                depth = r.choice([None, None, None, 1, 2, 3, 5, 9])
                no_total = r.random() < 0.1
                a = (["--flat"] if what == "flat" else []) + (["--no-total"] if no_total else []) + (
                    ["--depth", depth] if depth else [])
                res = ctx.run("bal", "-f", name, *a, *opts, *more, *q)
                accepted(ctx, res)
                rows, total = parse_balance(res.out, self.comms)
                if what == "flat":
                    check_flat(rows, led.flat(keep, depth), ctx)
                else:
                    check_tree(rows, led.subtree(keep), depth, ctx)
                check_total(rows, total, led.total(keep), not no_total)
            n = sum(1 for _ in led.all())
            k = n if keep is None else sum(1 for _ in led.all(keep))
            ctx.count["postings_reported"] += k
            ctx.count["postings_left_out"] += n - k
        elif what == "convert":
            self.convert(ctx, name, more)
        elif what == "check":
            res = ctx.run("check", "-f", name)
            accepted(ctx, res)
            ctx.expect("OK" in res.out, lambda: "check does not say OK: %r" % res.out)
        elif what == "prices":
            from .props.c15 import check_prices
            res = ctx.run("prices", "-f", name, *more)
            accepted(ctx, res)
            check_prices(ctx, res.out, led)
        else:
            res = ctx.run(what, "-f", name, *more)
            accepted(ctx, res)
            n = {"accounts": led.accounts, "payees": led.payees, "commodities": led.comms}[what]
            want = sorted(set(n.names.values()))
            got = res.out.split("\n")[:-1]
            ctx.expect(got == want, lambda: "%s: expected %r, found %r" % (what, want, got))
        return what

    def convert(self, ctx, name, more):
        from .props.c16 import convert, rates
        r, led = self.rng, self.led
        pairs = {}
        for d, c, v, oc, _ in led.prices:
            if c != oc:
                pairs.setdefault((d, frozenset((c, oc))), set()).add(v if c < oc else (1 / v if v else 0))
            if v == 0:
                return
        if any(len(x) > 1 for x in pairs.values()) or len({k for _, k in pairs}) > 9:
            return  # which of two quotes of a day counts is not specified
        target = r.choice(sorted(c for c in self.comms if c))
        days = sorted({p[0] for p in led.prices} | {t.date for t in led.txns})
        today = r.choice([date(2022, 1, 1)] + [r.choice(days) + timedelta(days=r.choice([0, 1, -1]))] * 2)
        today = max(today, date(1970, 1, 2))  # the clock cannot be before
        rs = rates(led.prices, today, target)
        used = {p.comm for _, p in led.all()}
        options = [{}]
        for c, xs in sorted(rs.items()):
            if c in used:
                options = [dict(o, **{c: x}) for o in options for x in sorted(xs)]
        if len(options) > 200:
            return
        opts, q, keep = self.selection(query=0.2, limits=0.15, real=0.15)
        flat = r.random() < 0.5
        res = ctx.run("bal", "-f", name, "-X", target, *(["--flat"] if flat else []), *opts,
                      *more, *q, now=calendar.timegm(today.timetuple()) + r.choice([0, 40000, 86399]))
        accepted(ctx, res)
        rows, total = parse_balance(res.out, self.comms)
        err = None
        for o in options:
            try:
                if flat:
                    check_flat(rows, {a: convert(b, o, target) for a, b in led.flat(keep).items()})
                else:
                    check_tree(rows, {a: convert(b, o, target) for a, b in led.subtree(keep).items()})
                check_total(rows, total, convert(led.total(keep), o, target))
                err = None
                break
            except Violation as e:
                err = err or e
        ctx.count["oracle_checks"] += 1
        if err is not None:
            raise Violation("in %s on %s: %s" % (target, today, err))

    def refuse(self, ctx, name="j.ledger", what="a journal the reference rejects"):
        r = self.rng
        cmd = r.choice(["bal", "reg", "accounts", "payees", "commodities", "prices", "check"])
        rejected(ctx, ctx.run(cmd, "-f", name), "%s (%s)" % (what, self.led.why))


def explore(ctx, rng, ask=2, kinds=None, more=(), **kw):
    """A case of any property: a world, some questions. Returns the world, None if it says nothing."""
    w = World(rng, **kw)
    if w.verdict is None:
        return None
    w.put(ctx)
    ctx.count["worlds"] += 1
    if w.verdict == "reject":
        ctx.count["worlds_rejected"] += 1
        w.refuse(ctx)
        return w
    for _ in range(ask):
        w.ask(ctx, rng.choice(kinds) if kinds else None, more=more)
    ctx.count["world_transactions"] += len(w.led.txns)
    ctx.count["world_automated"] += sum(1 for _, p in w.led.all() if p.origin == "auto")
    ctx.count["world_filled"] += sum(1 for _, p in w.led.all() if p.origin == "fill")
    ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
    return w
