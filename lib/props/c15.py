"""The list of prices"""
import re
from collections import Counter

from ..expr import ExprGen
from ..journal import Amt, Auto, Directive, Gen, Posting, Price, Txn, dec
from ..model import F, show
from ..util import accepted, put, sample_of, verdict
from ..world import explore

ID = "C15"
QUICK, THOROUGH = 12000, 300000
WORLD = 0.4
RULE = ("Random journals with P directives (with and without time, repeated, inverse), unit and total costs for buying "
        "and selling, exchanges without a price of up to dozens of postings and automated transactions, in any order of the file; the list has to "
        "be, as a multiset, that of the reference, and so has the list of a journal with --no-balance-check. "
        "Non-trivial: there are at least two prices; distinct by list.")


def lines_of(led):
    """The lines there have to be: those with a definite text, and pairs for the inferred ones"""
    sure, either = Counter(), []
    for d, c, v, oc, src in led.prices:
        line = "%s %s %s" % (d.isoformat(), c, show(oc, v) if v else "0")
        if src == "inferred":
            either.append((line, "%s %s %s" % (d.isoformat(), oc, show(c, 1 / v))))
        else:
            sure[line] += 1
    return sure, either


def check_prices(ctx, out, led):
    sure, either = lines_of(led)
    got = Counter(x for x in out.split("\n") if x)
    for k, n in sure.items():
        ctx.expect(got[k] >= n, lambda: "price %r has to be listed %d times: %r" % (k, n, out[:1500]))
        got[k] -= n
    for a, b in either:
        x = a if got[a] > 0 else b
        ctx.expect(got[x] > 0, lambda: "the exchange priced %r is not listed: %r" % (a, out[:1500]))
        got[x] -= 1
    left = [k for k, n in got.items() if n > 0]
    ctx.expect(not left, lambda: "prices nobody gave: %r" % left)
    ctx.count["prices_listed"] += sum(sure.values()) + len(either)
    ctx.count["prices_inferred"] += len(either)


def with_prices(rng, g, items, n):
    out = list(items)
    for _ in range(n):
        a, b = rng.sample(g.comms, 2)
        p = Price(g.a_date(), a, g.amt(b, positive=True))
        if rng.random() < 0.3:
            p.time = rng.choice(["00:00:00", "12:30:00", "23:59:59"])
        out.insert(rng.randrange(len(out) + 1), p)
        if rng.random() < 0.1:
            out.insert(rng.randrange(len(out) + 1), Price(p.date, p.comm, p.amt))
    return out


def case(ctx, rng, idx):
    big = rng.random() < 0.04
    g = Gen(rng, max_postings=40 if big else 5, cost=rng.choice([0, 0.05, 0.4]) if big else 0.4, exchange=0.35, multi=0.4, blank=0.3, notes=0.05, odd=0.3, big=0.02)
    while len(g.comms) < 2:
        g.comms = g.pick_some(["EUR", "USD", "GBP", "€"], 2, 3)
    items = g.journal(rng.choice([1, 2, 4, 8]))
    items = with_prices(rng, g, items, rng.choice([0, 1, 3, 8]))
    kw = {}
    if rng.random() < 0.15:
        items.append(Auto("Assets", [Posting("Budget", Amt("2", ""), kind="V")]))
        kw["match"] = lambda q, p, t, led, amount=False: "assets" in p.account.lower()
    v, led = verdict(items, **kw)
    if v != "ok":
        return
    put(ctx, items, rng)
    r = ctx.run("prices", "-f", "j.ledger", *(["--no-balance-check"] if rng.random() < 0.1 else []))
    accepted(ctx, r)
    check_prices(ctx, r.out, led)
    if len(led.prices) > 1:
        ctx.seen(r.out, sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, prices=0.8, cost=0.35, exchange=0.35, blank=0.3, split=0.15, kinds=["prices"], ask=1)
