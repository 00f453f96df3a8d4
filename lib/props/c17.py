"""Aliases and case"""
import copy
import re

from ..journal import Amt, Auto, Directive, Gen, Posting, Price, Txn, dec
from ..model import F
from ..util import accepted, check_reports, put, sample_of, verdict
from ..world import explore

ID = "C17"
QUICK, THOROUGH = 6000, 150000
WORLD = 0.4
RULE = ("Random journals written with the names of the account and commodity directives, and the same journals with "
        "every use (postings, costs, assertions, prices, automated postings, -X) replaced at random by one of the "
        "aliases or by the name or alias in another case; the directives are anywhere in the file. All reports have to "
        "be the same, byte by byte. Names without directive which only differ in case are the same one too. "
        "Non-trivial: some name was replaced and the report is not empty; distinct by journal.")


def recase(rng, s):
    k = rng.random()
    if k < 0.3:
        return s.lower()
    if k < 0.6:
        return s.upper() if s.upper().lower() == s.lower() else s.lower()
    out = "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)
    return out if out.lower() == s.lower() else s.lower()


class Spell:
    def __init__(self, rng, table, rate):
        self.rng, self.table, self.rate, self.n = rng, table, rate, 0

    def __call__(self, name):
        if name not in self.table or self.rng.random() > self.rate:
            return name
        s = self.rng.choice(self.table[name])
        if self.rng.random() < 0.5:
            s = recase(self.rng, s)
        if s != name:
            self.n += 1
        return s


def respell(items, acc, com):
    out = copy.deepcopy(items)
    for it in out:
        if isinstance(it, (Txn, Auto)):
            for p in it.postings:
                p.account = acc(p.account)
                for a in (p.amt, p.cost[1] if p.cost else None, p.bal):
                    if a is not None:
                        a.comm = com(a.comm)
        elif isinstance(it, Price):
            it.comm, it.amt.comm = com(it.comm), com(it.amt.comm)
    return out


def case(ctx, rng, idx):
    g = Gen(rng, cost=0.2, exchange=0.15, multi=0.4, virtual=0.15, notes=0.03, odd=0.3, big=0.02)
    items = g.journal(rng.choice([1, 2, 4, 8]))
    v, led = verdict(items)
    if v != "ok":
        return
    run = {}
    if rng.random() < 0.5:
        for t in led.txns:
            for p in t.postings:
                if p.kind == "R":
                    k = (p.account, p.comm)
                    run[k] = run.get(k, F(0)) + p.val
                    if p.origin == "txn" and p.comm and rng.random() < 0.3:
                        p.src.bal = Amt(dec(run[k]), p.comm)
    for _ in range(rng.choice([0, 1, 3])):
        if len(g.comms) > 1:
            a, b = rng.sample(g.comms, 2)
            items.insert(rng.randrange(len(items) + 1), Price(g.a_date(), a, g.amt(b, positive=True)))
    if rng.random() < 0.2:
        items.append(Auto("Assets", [Posting(rng.choice(g.accounts), Amt("2", rng.choice(["", g.comms[0]])), kind="V")]))
    declared = rng.random() < 0.75
    acc, com, directives = {}, {}, []
    if declared:
        for i, a in enumerate(g.accounts):
            if rng.random() < 0.6:
                al = [["alias%s" % "abcdefghijk"[i], "My %d Account: x" % i, "k%d" % i, "Ñu %d" % i, "a:b:%d" % i,
                       "Cuenta%d" % i, "z%dz" % i, "Otra cuenta que es la %d" % i][k]
                      for k in rng.sample(range(8), rng.choice([0, 1, 2, 3, 8]))]
                props = [("alias", x) for x in al]
                if rng.random() < 0.3:
                    props.insert(rng.randrange(len(props) + 1), rng.choice([("note", "a note"), ("isin", "X1"),
                                                                           ("default", "")]))
                directives.append(Directive("account", a, props))
                acc[a] = [a] + al
        for i, c in enumerate(g.comms):
            if rng.random() < 0.7:
                al = [["money%s" % "abcdefgh"[i], "the %d th" % i, "₿" + "xyzuvwst"[i], "Dinero %s" % "abcdefgh"[i]][k]
                      for k in rng.sample(range(4), rng.choice([0, 1, 2, 3]))]
                props = [("alias", x) for x in al]
                if rng.random() < 0.3:
                    props.insert(rng.randrange(len(props) + 1), rng.choice([("note", "a note"), ("format", "1.000,00"),
                                                                           ("default", "")]))
                directives.append(Directive("commodity", c, props))
                com[c] = [c] + al
        for d in directives:
            items.insert(rng.randrange(len(items) + 1), d)
    else:
        acc = {a: [a] for a in g.accounts}
        com = {c: [c] for c in g.comms}
    sa, sc = Spell(rng, acc, rng.choice([0.2, 0.6, 1.0])), Spell(rng, com, rng.choice([0.2, 0.6, 1.0]))
    other = respell(items, sa, sc)
    put(ctx, items, None, "a.ledger")
    put(ctx, other, rng, "b.ledger")
    cmds = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["commodities"], ["prices"],
            ["bal", "-X", rng.choice(g.comms)], ["reg", re.match(r"\w+", rng.choice(g.accounts)).group()]]
    if not declared:
        cmds = [["bal", "--flat"], ["accounts"], ["commodities"], ["prices"]]
    for c in rng.sample(cmds, 3):
        r = ctx.run(*c, "-f", "a.ledger")
        accepted(ctx, r)
        d = list(c)
        if "-X" in d:
            d[2] = sc(d[2])
        s = ctx.run(*d, "-f", "b.ledger")
        accepted(ctx, s, "the same journal with aliases")
        x, y = r.out, s.out
        if not declared:
            # which of the spellings is shown is not specified, nor is the order it implies
            if c[0] == "prices":
                x, y = (z.lower().count("\n") for z in (x, y))
            else:
                x, y = (sorted(" ".join(l.split()) for l in z.lower().split("\n")) for z in (x, y))
                if c[0] == "bal":
                    x, y = sorted(" ".join(x).split()), sorted(" ".join(y).split())
        ctx.count["reports_compared"] += 1
        ctx.expect(x == y, lambda: "%r and %r differ\n%s---\n%s" % (c, d, r.out[:900], s.out[:900]))
    ctx.count["names_replaced"] += sa.n + sc.n
    ctx.count["declared" if declared else "undeclared"] += 1
    if sa.n + sc.n:
        ctx.seen(ctx.files["b.ledger"], sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, directives=1, respell=1, cost=0.25, prices=0.6, asserts=0.5, autos=0.4, split=0.1)
