"""The order of the file does not matter"""
from ..journal import Amt, Directive, Gen, Posting, Price, Txn, dec
from ..model import F, Ledger
from ..util import accepted, put, rejected, sample_of, style, verdict
from ..world import World

ID = "C09"
QUICK, THOROUGH = 2100, 52500
WORLD = 0.5
RULE = ("Random journals with directives, prices, assertions and automated transactions, written in several random orders "
        "which only keep the relative order of the transactions of the same day; every command has to print the same, "
        "byte by byte (the list of prices as a set). Non-trivial: the order changed and the report is not empty; "
        "distinct by report.")


def full_journal(rng, g, n=None):
    """Transactions, directives with aliases and rules, prices"""
    items = g.journal(n)
    for t in items:
        t.payee = None
    extra = []
    for a in rng.sample(g.accounts, rng.randint(0, 2)):
        extra.append(Directive("account", a, [("alias", "alias %s" % a.replace(":", " "))] if rng.random() < 0.6 else
                               [("note", "some note")]))
    for c in rng.sample(g.comms, rng.randint(0, len(g.comms))):
        extra.append(Directive("commodity", c, [("alias", "alias" + "abcdefgh"[g.comms.index(c) % 8])]
                               if rng.random() < 0.6 else []))
    if rng.random() < 0.5:
        extra.append(Directive("payee", "Someone", [("alias", "^" + rng.choice(["Sh", "Re", "Bo", "Tr", "Gi", "AT"]))]))
    if rng.random() < 0.3:
        extra.append(Directive("tag", "food"))
    seen = set()
    for _ in range(rng.randint(0, 4)):
        if len(g.comms) > 1:
            a, b = rng.sample(g.comms, 2)
            d = g.a_date()
            if (d, frozenset((a, b))) in seen:
                continue
            seen.add((d, frozenset((a, b))))
            extra.append(Price(d, a, g.amt(b, positive=True)))
    return items, extra


def shuffled(rng, items, extra):
    """A random order which keeps that of the transactions of a day"""
    days = {}
    for t in items:
        days.setdefault(t.date, []).append(t)
    slots = [t.date for t in items]
    rng.shuffle(slots)
    its = {d: iter(v) for d, v in days.items()}
    out = [next(its[d]) for d in slots]
    for e in extra:
        out.insert(rng.randrange(len(out) + 1), e)
    return out


def case(ctx, rng, idx):
    g = Gen(rng, notes=0.1, virtual=0.1, days=rng.choice([3, 10, 300]), odd=0.1, big=0.02)
    items, extra = full_journal(rng, g, rng.choice([2, 3, 5, 9, 20]))
    v, led = verdict(items + extra)
    if v != "ok":
        return
    # some assertions, which depend on the dates only
    run = {}
    if rng.random() < 0.5:
        for t in led.txns:
            for p in t.postings:
                if p.kind == "R":
                    k = (p.account, p.comm)
                    run[k] = run.get(k, F(0)) + p.val
                    if p.origin == "txn" and rng.random() < 0.2:
                        p.src.bal = Amt(dec(run[k]), p.comm)
    if rng.random() < 0.3:
        from ..journal import Auto
        extra.append(Auto(rng.choice(["Assets", "Expenses", "@Shop"]),
                          [Posting("(Budget)"[1:-1], Amt("2", ""), kind="V")]))
        v = None
    cmds = [("bal",), ("bal", "--flat"), ("reg",), ("accounts",), ("payees",), ("commodities",), ("prices",)]
    cmd = rng.sample(cmds, 3)
    if not any(len(set(map(id, x))) for x in ()) and rng.random() < 0.2:
        cmd.append(("reg", "-b", rng.choice(items).date.isoformat()))
    base = {}
    put(ctx, items + extra, rng, "a.ledger")
    same = [x for x in extra]
    for k in range(2):
        order = shuffled(rng, items, extra)
        put(ctx, order, rng, "b%d.ledger" % k)
    for c in cmd:
        r = ctx.run(*c, "-f", "a.ledger")
        accepted(ctx, r)
        for k in range(2):
            s = ctx.run(*c, "-f", "b%d.ledger" % k)
            accepted(ctx, s, "the same journal in another order")
            x, y = r.out, s.out
            if c[0] == "prices":
                x, y = sorted(x.split("\n")), sorted(y.split("\n"))
            ctx.count["orders_compared"] += 1
            ctx.expect(x == y, lambda: "%r depends on the order of the file\n%s---\n%s" % (c, r.out[:800], s.out[:800]))
        if r.out:
            ctx.seen(r.out, sample_of(ctx))
    # and rejection does not either
    if rng.random() < 0.2:
        bad = Txn(rng.choice(items).date, "Bad", [Posting("x", Amt("1", g.comms[0])), Posting("y", Amt("2", g.comms[0]))])
        put(ctx, shuffled(rng, items + [bad], extra), rng, "bad.ledger")
        rejected(ctx, ctx.run(rng.choice(cmds)[0], "-f", "bad.ledger"), "an unbalanced transaction somewhere")


def world(ctx, rng):
    w = World(rng, shuffle=1, prices=0.6, directives=0.7, rules=0.5, asserts=0.5)
    if w.verdict is None:
        return
    st = style(rng) if rng.random() < 0.5 else None
    put(ctx, w.items, None, "a.ledger", st)
    for k in range(2):
        put(ctx, w.reorder(), None, "b%d.ledger" % k, st)
    for _ in range(3):
        c = w.command()
        r = ctx.run(*c, "-f", "a.ledger")
        if w.verdict == "ok":
            accepted(ctx, r)
        for k in range(2):
            s = ctx.run(*c, "-f", "b%d.ledger" % k)
            x, y = (r.ok, r.out), (s.ok, s.out)
            if c[0] == "check":
                x, y = r.ok, s.ok
            if c[0] == "prices":
                x, y = (r.ok, sorted(r.out.split("\n"))), (s.ok, sorted(s.out.split("\n")))
            ctx.count["orders_compared"] += 1
            ctx.expect(x == y, lambda: "%r depends on the order of the file\n%s---\n%s" % (c, r.out[:800], s.out[:800]))
    ctx.count["world_%s" % w.verdict] += 1
    ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
