"""Automated transactions"""
from ..expr import ExprGen, QueryGen, TypeProblem
from ..journal import Amt, Auto, Gen, Posting, dec
from ..model import F, Ledger, Reject, Unclear
from ..util import accepted, check_reports, put, rejected, sample_of
from ..world import explore
from .c12 import TAGS, tagged

ID = "C14"
QUICK, THOROUGH = 6000, 150000
WORLD = 0.5
RULE = ("Random journals with one to four automated transactions anywhere in the file: queries over accounts, payees, "
        "tags and expressions; postings with multipliers, fixed amounts and value expressions, virtual and real, "
        "balanced and not; tags for the matching postings. Reports (also by %tag) and verdict come from the reference. "
        "Non-trivial: some rule matched; distinct by journal.")


def case(ctx, rng, idx):
    g = Gen(rng, payee=0.3, notes=0.05, virtual=0.15, must=0.1, fine=0.03, big=0.03, cost=0.08, zero=0.06)
    items = g.journal(rng.choice([1, 2, 4, 8]))
    tagged(rng, items)
    eg = ExprGen(rng, g.accounts, g.descs, g.comms, TAGS, ["x", "some value"], [], [t.date for t in items])
    table, autos = {}, []

    def match(text, p, t, led, amount=False):
        v = table[text](p, t, led)
        if amount:
            return v if isinstance(v, tuple) else (p.comm, p.val * v)
        return v

    # the names of the automated postings: some new, some known
    targets = g.accounts[:2] + ["Budget", "Budget:Detail", "Savings:Auto"]
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        qg = QueryGen(rng, g.accounts, g.descs, TAGS)
        if rng.random() < 0.3:
            e = eg.boolean(1)
            while '"' in e.text:
                e = eg.boolean(1)
            text, pred = 'expr "%s"' % e.text, e.fn
        else:
            while True:
                toks, pred = qg.query(rng.choice([1, 1, 2]))
                if not any(" " in x for x in toks):
                    break
            text = " ".join(toks)
        table[text] = pred
        ps = []
        kind = rng.choice("VVVBR")
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["mult", "mult", "fixed", "expr", "num"])
            acc = rng.choice(targets)
            if k == "mult":
                a = rng.choice(["2", "-1", "1", "0.5", "-0.21", "0", "100"])
                ps.append([Posting(acc, Amt(a, ""), kind=kind), lambda s, a=a, acc=acc: Posting(
                    rng.choice(targets), Amt(dec(-F(a)), ""), kind=kind)])
            elif k == "fixed":
                c = rng.choice(g.comms + ["NEW"])
                a = rng.choice(["10", "-3.50", "0.001"])
                ps.append([Posting(acc, Amt(a, c), kind=kind), lambda s, a=a, c=c: Posting(
                    rng.choice(targets), Amt(dec(-F(a)), c), kind=kind)])
            elif k == "num":
                e = eg.number(2)
                if '"' in e.text:
                    continue
                x = "(" + e.text + ")"
                table[x] = e.fn
                y = "(-(" + e.text + "))"
                table[y] = lambda p, t, l, e=e: -e.fn(p, t, l)
                ps.append([Posting(acc, kind=kind, expr=x), lambda s, y=y: Posting(rng.choice(targets), kind=kind,
                                                                                   expr=y)])
            else:
                e = eg.money(2)
                x = "(" + e.text + ")"
                table[x] = e.fn
                y = "(-(" + e.text + "))"
                table[y] = lambda p, t, l, e=e: (lambda m: (m[0], -m[1]))(e.fn(p, t, l))
                ps.append([Posting(acc, kind=kind, expr=x), lambda s, y=y: Posting(rng.choice(targets), kind=kind,
                                                                                   expr=y)])
        out = [p for p, _ in ps]
        if kind != "V" and rng.random() < 0.85:
            out += [f(None) for _, f in ps]  # what balances it
        a = Auto(text, out)
        if rng.random() < 0.3:
            a.notes = [rng.choice([":auto:", "auto: yes", ":Trip:"])]
        autos.append(a)
    order = list(items)
    for a in autos:
        order.insert(rng.randrange(len(order) + 1), a)
    try:
        led = Ledger(order, match=match)
    except Reject:
        led = None
    except (Unclear, TypeProblem):
        return
    put(ctx, order, rng)
    if led is None:
        rejected(ctx, ctx.run(rng.choice(["bal", "reg", "check"]), "-f", "j.ledger"), "automated postings which do not balance")
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
        return
    n = sum(1 for _, p in led.all() if p.origin == "auto")
    comms = set(led.comms.names.values())
    check_reports(ctx, led, which=(rng.choice(["flat", "tree", "reg", "reg"]),))
    if rng.random() < 0.4:
        check_reports(ctx, led, keep=lambda t, p: p.kind == "R", args=["--real"], which=("reg",))
    if rng.random() < 0.4:
        q = rng.choice(["auto", "Trip"])
        check_reports(ctx, led, keep=lambda t, p: any(q.lower() in x.lower() for x, _ in p.tags), args=["%" + q],
                      which=("reg",))
    ctx.count["automated_postings"] += n
    if n:
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, autos=1, tags=0.7, real_autos=rng.choice([0.1, 0.5]), split=0.1,
            kinds=["flat", "tree", "reg", "reg", "reg", "check"])
