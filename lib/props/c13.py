"""Value expressions"""
from ..expr import ExprGen, arg
from ..journal import Gen
from ..util import check_reports, put, sample_of, verdict
from ..world import World
from .c12 import TAGS, tagged

ID = "C13"
QUICK, THOROUGH = 7500, 187500
WORLD = 0.4
RULE = ("Random typed expressions (and, or, not, any, comparisons, + - * / with their precedence and chains, abs, "
        "unary minus, amount, date, account, payee, note, has_tag, tag, to_date, money and long numbers; up to 60 "
        "nodes) given as 'expr' queries over random journals; the postings shown are those the reference evaluates "
        "to true. Non-trivial: true for some postings and false for others; distinct by expression.")


def exprgen(rng, g, items):
    notes = [n for t in items for n in t.notes + ([t.head] if t.head else [])]
    return ExprGen(rng, g.accounts, g.descs, g.comms, TAGS, ["x", "some value"], notes, [t.date for t in items])


def case(ctx, rng, idx):
    g = Gen(rng, payee=0.3, notes=0.3, odd=0.15, comms=[rng.choice(["EUR", "USD", "€", "kg", "Fund 2020"])]
            if rng.random() < 0.6 else ["EUR", "USD", "kg"])
    items = g.journal(rng.choice([2, 4, 8]))
    tagged(rng, items)
    v, led = verdict(items)
    if v != "ok":
        return
    put(ctx, items, rng)
    eg = exprgen(rng, g, items)
    eg.dq = True
    for _ in range(2):
        e = eg.boolean(rng.choice([0, 1, 2, 3]))
        keep = lambda t, p: e.fn(p, t, led)
        check_reports(ctx, led, keep=keep, args=["expr", arg(e)], which=(rng.choice(["flat", "reg", "reg"]),))
        n = sum(1 for _ in led.all())
        k = sum(1 for _ in led.all(keep))
        ctx.count["evaluated_true"] += k
        ctx.count["evaluated_false"] += n - k
        if 0 < k < n:
            ctx.seen(e.text, sample_of(ctx))


def world(ctx, rng):
    w = World(rng, tags=0.8, payee=0.4, rules=0.4, **(dict(comms=["EUR"]) if rng.random() < 0.4 else {}))
    if w.verdict != "ok":
        return
    w.put(ctx)
    for _ in range(2):
        w.ask(ctx, rng.choice(["flat", "tree", "reg", "reg"]), query=1, exprs=1)
    ctx.seen((ctx.trace[-1]["args"], ctx.files["j.ledger"]), sample_of(ctx))
