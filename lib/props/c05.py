"""Flat balance report"""
from ..journal import ACCOUNTS, Gen
from ..util import (accepted, check_flat, check_total, parse_balance, put, sample_of, verdict)
from ..world import explore

ID = "C05"
QUICK, THOROUGH = 6000, 150000
WORLD = 0.45
RULE = ("Random journals (up to 60 accounts up to 12 levels deep with names which are prefixes of others, 1 to 6 "
        "commodities, blanks, costs, virtual postings) reported with bal --flat, with and without --depth and "
        "--no-total; every row and the total are compared with exact sums. Non-trivial: at least two rows; distinct "
        "by report.")
DEEP = ["a:b:c:d:e:f:g:h:i:j:k:l", "a:b:c:d:e:f", "a:b", "a", "ab", "ab:c", "a b", "a:b c", "a:b:cc", "a:bb:c",
        "A2", "Z", "z:y", "Zz"]


def case(ctx, rng, idx):
    kw = {}
    shape = rng.random()
    if shape < 0.15:
        kw = dict(accounts=rng.sample(DEEP, 6) + rng.sample(ACCOUNTS, 3))
    elif shape < 0.22:
        kw = dict(accounts=["acc %s:sub %s" % (chr(97 + i % 7), chr(97 + i % 26) + chr(97 + i // 26)) for i in range(60)],
                  max_postings=30)
    elif shape < 0.25:
        # many rows left after cutting, each of several accounts
        kw = dict(accounts=["x%d:acc%s:%s" % (i % 4, chr(97 + i // 2 % 26), "pq"[i % 2]) for i in range(150)],
                  max_postings=60)
    elif shape < 0.3:
        kw = dict(comms=["EUR", "USD", "GBP", "BTC", "kg", "Fund 2020"], multi=0.8)
    g = Gen(rng, **kw)
    items = g.journal(rng.choice([1, 2, 4, 8, 20, 40]) if rng.random() < 0.99 else 300)
    v, led = verdict(items)
    if v != "ok":
        return
    put(ctx, items, rng)
    depth = rng.choice([None, None, 1, 2, 3, 4, 20])
    no_total = rng.random() < 0.15
    args = ["--flat"] + (["--no-total"] if no_total else [])
    if depth:
        args += [rng.choice(["--depth", "-d"]), depth]
    rng.shuffle(args) if depth is None else None
    r = ctx.run(rng.choice(["bal", "balance"]), "-f", "j.ledger", *args)
    accepted(ctx, r)
    rows, total = parse_balance(r.out, set(led.comms.names.values()))
    check_flat(rows, led.flat(depth=depth), ctx)
    check_total(rows, total, led.total(), not no_total)
    order = [x.label.split(":") for x in rows]
    ctx.expect(order == sorted(order), lambda: "the accounts are not in order: %r" % order)
    if len(rows) > 1:
        ctx.seen(r.out, sample_of(ctx))
    # conservation: cutting the report in two by account loses nothing
    if rng.random() < 0.3 and led.balances():
        top = rng.choice(sorted(led.balances()))
        r = ctx.run("bal", "-f", "j.ledger", "--flat", "--", "expr", "account =~ /^%s$/" % _rx(top))
        accepted(ctx, r)
        rows, _ = parse_balance(r.out, set(led.comms.names.values()))
        check_flat(rows, led.flat(lambda t, p: p.account == top), ctx)


def _rx(s):
    return "".join(c if c.isalnum() or c in " :" else "." for c in s)


def world(ctx, rng):
    explore(ctx, rng, kinds=["flat"], huge=0.03)
