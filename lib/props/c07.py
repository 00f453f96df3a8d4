"""Register report"""
from datetime import date, timedelta

from ..journal import Gen
from ..util import accepted, check_register, put, register_expected, sample_of, verdict
from ..world import explore

ID = "C07"
QUICK, THOROUGH = 7200, 180000
WORLD = 0.45
RULE = ("Random journals with transactions out of order and many on the same day (up to 400 transactions), long and "
        "non-ASCII names, several commodities; every row of reg is compared with the reference: date and description "
        "of the first posting of each transaction, account, amount, running total in every commodity. Non-trivial: "
        "at least two transactions; distinct by report.")
LONG = ["A very long description which does not fit in its column at all", "Descripción larguísima con eñes y acentos ñ",
        "exactly thirty-eight characters long!!", "thirty-seven characters long, almost!", "x" * 39, "日本語の説明" * 5]


def case(ctx, rng, idx):
    kw = {}
    if rng.random() < 0.2:
        kw = dict(descs=rng.sample(LONG, 3) + ["Shop"])
    if rng.random() < 0.1:
        kw.update(accounts=["Assets:%s" % ("long name " * k).strip() for k in range(1, 9)] + ["b"])
    if rng.random() < 0.2:
        kw.update(multi=0.9, comms=["EUR", "USD", "GBP", "BTC", "kg"])
    g = Gen(rng, same_day=rng.choice([0.0, 0.3, 0.9]), days=rng.choice([3, 30, 700]), payee=0.0, **kw)
    n = rng.choice([1, 2, 4, 8, 16]) if rng.random() < 0.98 else 250
    items = g.journal(n)
    if rng.random() < 0.1:
        items.sort(key=lambda t: t.date, reverse=rng.random() < 0.5)
    if rng.random() < 0.1:
        for t in items:  # other centuries
            t.date = rng.choice([date(1900, 1, 1), date(1999, 12, 31), date(2100, 2, 28), date(1970, 1, 1), t.date])
    v, led = verdict(items)
    if v != "ok":
        return
    put(ctx, items, rng)
    r = ctx.run(rng.choice(["reg", "register"]), "-f", "j.ledger")
    accepted(ctx, r)
    check_register(r.out, register_expected(led), ctx)
    if n > 1:
        ctx.seen(r.out, sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, kinds=["reg"], huge=0.03, payee=0.4)
