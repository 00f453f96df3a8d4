"""Queries"""
from ..expr import QueryGen
from ..journal import Gen
from ..util import check_reports, put, sample_of, verdict
from ..world import World

ID = "C12"
QUICK, THOROUGH = 7500, 187500
TAGS = ["food", "Trip", "project", "big spender"]
WORLD = 0.45
RULE = ("Random journals with tags and payees, reported with random queries: account names and regular expressions in "
        "any case, /case sensitive/, @payee, %tag, one to five terms joined by and, or or nothing, with date limits "
        "now and then. The rows are those of the postings the reference selects. Non-trivial: the query selects some "
        "postings and leaves some out; distinct by query and journal.")


def tagged(rng, items):
    for t in items:
        if rng.random() < 0.3:
            t.notes.append(rng.choice([":%s:" % rng.choice(TAGS), "%s: %s" % (rng.choice(TAGS), "x"),
                                       ":%s:%s:" % tuple(rng.sample(TAGS, 2))]))
        for p in t.postings:
            if rng.random() < 0.25:
                p.notes.append(rng.choice([":%s:" % rng.choice(TAGS), "%s: %s" % (rng.choice(TAGS), "some value")]))


def case(ctx, rng, idx):
    g = Gen(rng, payee=0.4, notes=0.05, virtual=0.2)
    items = g.journal(rng.choice([2, 4, 8, 15]))
    tagged(rng, items)
    v, led = verdict(items)
    if v != "ok":
        return
    put(ctx, items, rng)
    toks, pred = QueryGen(rng, g.accounts, g.descs, TAGS).query()
    args = list(toks)
    lim = None
    if rng.random() < 0.2:
        lim = rng.choice(items).date
        args = ["-b", lim.isoformat()] + args
    keep = lambda t, p: pred(p, t, led) and (lim is None or t.date >= lim)
    check_reports(ctx, led, keep=keep, args=args, which=(rng.choice(["flat", "tree"]), "reg"))
    n = sum(1 for _ in led.all())
    k = sum(1 for _ in led.all(keep))
    ctx.count["postings_selected"] += k
    ctx.count["postings_left_out"] += n - k
    if 0 < k < n:
        ctx.seen((args, ctx.files["j.ledger"]), sample_of(ctx))


def world(ctx, rng):
    w = World(rng, tags=0.8, payee=0.4, rules=0.4)
    if w.verdict != "ok":
        return
    w.put(ctx)
    for _ in range(2):
        w.ask(ctx, rng.choice(["flat", "tree", "reg", "reg"]), query=1, exprs=0.1)
    ctx.seen((ctx.trace[-1]["args"], ctx.files["j.ledger"]), sample_of(ctx))
