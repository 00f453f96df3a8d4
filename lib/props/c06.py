"""Tree balance report"""
from ..journal import ACCOUNTS, Amt, Gen, Posting, Txn, dec
from ..util import accepted, check_total, check_tree, parse_balance, put, sample_of, verdict
from ..world import explore
from .c05 import DEEP

ID = "C06"
QUICK, THOROUGH = 8000, 200000
WORLD = 0.45
RULE = ("Random account trees (chains, siblings which cancel out, parents with postings of their own, names which are "
        "prefixes of others or sort around ':', up to 12 levels) reported with bal and every --depth; the account of "
        "each row is rebuilt from the indentation and its amount compared with the exact sum of the account and its "
        "descendants. Non-trivial: a report with at least three rows; distinct by report.")
TRICKY = ["a", "a:b", "a:b:c", "a:b:c:d", "a:bb", "a:b:cc", "ab", "a b", "a:b b", "a-b:c", "b:a:b", "b:a", "c:d:e:f",
          "c:d:e", "c", "b", "a:b!:x", "a:B", "c:d2", "c:d 2:e", "a:a:a", "a:a"]


def case(ctx, rng, idx):
    shape = rng.random()
    if shape < 0.5:
        names = rng.sample(TRICKY, rng.randint(2, 9))
        g = Gen(rng, accounts=names, comms=rng.sample(["EUR", "USD", "kg"], rng.randint(1, 2)), big=0.02, fine=0.05)
        items = []
        # small amounts, so that subtotals cancel out often
        for _ in range(rng.randint(1, 6)):
            c = rng.choice(g.comms)
            x = rng.choice([1, 1, 2, 5, -1, -2])
            items.append(Txn(g.a_date(), "x", [Posting(rng.choice(names), Amt(str(x), c)),
                                               Posting(rng.choice(names), Amt(str(-x), c))]))
    elif shape < 0.65:
        g = Gen(rng, accounts=rng.sample(DEEP, 6) + rng.sample(ACCOUNTS, 3))
        items = g.journal()
    else:
        g = Gen(rng)
        items = g.journal(rng.choice([1, 3, 8, 30]))
    v, led = verdict(items)
    if v != "ok":
        return
    put(ctx, items, rng)
    depth = rng.choice([None, None, 1, 2, 3, 4, 12])
    no_total = rng.random() < 0.1
    r = ctx.run("bal", "-f", "j.ledger", *((["--depth", depth] if depth else []) + (["--no-total"] if no_total else [])))
    accepted(ctx, r)
    rows, total = parse_balance(r.out, set(led.comms.names.values()))
    check_tree(rows, led.subtree(), depth, ctx)
    check_total(rows, total, led.total(), not no_total)
    if len(rows) > 2:
        ctx.seen(r.out, sample_of(ctx))


def world(ctx, rng):
    kw = {}
    if rng.random() < 0.4:
        kw["accounts"] = rng.sample(TRICKY + DEEP[:3], rng.randint(3, 12))
        kw["accounts"] = list(dict.fromkeys(kw["accounts"]))
    explore(ctx, rng, kinds=["tree"], huge=0.03, **kw)
