"""How amounts are displayed"""
import re
from datetime import date

from ..journal import Amt, Posting, Price, Txn, dec
from ..model import F, Ledger, show
from ..util import accepted, check_register, put, register_expected, sample_of
from ..world import explore

ID = "C04"
QUICK, THOROUGH = 4000, 100000
WORLD = 0.4
RULE = ("Amounts next to the rounding boundaries (n.nn5, n.nn49..9, .995, .9949.., carries, -0.00x, zero, integers, "
        "whole parts of up to 60 digits) and random ones, both signs, looked for in the register, the balance, the "
        "total and the list of prices. Non-trivial: every case; distinct by the amounts.")


def number(rng):
    whole = rng.choice([0, 0, 0, 1, 9, 10, 99, 100, 999, 12345, 10 ** 9 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1, 2 ** 64,
                        10 ** 30 - 1, rng.randrange(10 ** 60)])
    frac = rng.choice(["", "0", "00", "5", "05", "50", "99", "994", "995", "9949", "9950", "9951", "999", "9999",
                       "99499999999999999999", "005", "004", "0049", "00499999999999999999999", "0050000000001",
                       "015", "025", "045", "095", "0951", "1949", "195", "945", "9945", "0001", "00", "10",
                       "%d" % rng.randrange(10 ** rng.choice([1, 2, 3, 4, 10, 20]))])
    x = F("%d%s" % (whole, "." + frac if frac else ""))
    t = "%d%s" % (whole, "." + frac if frac else "")
    return t, x


def numbers(text):
    return re.findall(r"-?\d+(?:\.\d+)?", text)


def case(ctx, rng, idx):
    items, want = [], []
    d = date(2020, 3, 4)
    n = rng.randint(1, 6)
    for i in range(n):
        t, x = number(rng)
        if rng.random() < 0.5:
            t, x = "-" + t, -x
        c = "C" + "abcdefghij"[i]
        items.append(Txn(d, "x", [Posting("acc%s" % "abcdefghij"[i], Amt(t, c)), Posting("other")]))
        want.append((c, x))
    put(ctx, items, rng)
    r = ctx.run("reg", "-f", "j.ledger", "acc")
    accepted(ctx, r)
    for line, (c, x) in zip([l for l in r.out.split("\n") if " acc" in l], want):
        m = re.search(r"\s(acc\w)\s+(-?[\d.]+ C\w)\s*(.*)$", line)
        ctx.expect(m and m.group(2) == show(c, x), lambda: "register: expected %s, found %r" % (show(c, x), line))
    got = [l for l in r.out.split("\n") if " acc" in l]
    ctx.expect(len(got) == n, "rows are missing in the register")
    r = ctx.run("bal", "-f", "j.ledger", *rng.choice([(), ("--flat",)]))
    accepted(ctx, r)
    lines = r.out.split("\n")
    for i, (c, x) in enumerate(want):
        acc = "acc%s" % "abcdefghij"[i]
        hit = [l for l in lines if l.endswith("  " + acc)]
        if x == 0:
            ctx.expect(not hit, "an account without balance is shown")
            continue
        ctx.expect(len(hit) == 1, lambda: "no row for %s" % acc)
        ctx.expect(hit[0][:-len(acc)].strip() == show(c, x),
                   lambda: "balance: expected %s, found %r" % (show(c, x), hit[0]))
        ctx.expect(any(l.split("  other")[0].strip() == show(c, -x) for l in lines),
                   lambda: "balance: expected %s, found\n%s" % (show(c, -x), r.out))
    # running totals
    r = ctx.run("reg", "-f", "j.ledger")
    accepted(ctx, r)
    check_register(r.out, register_expected(Ledger(items)), ctx)
    # the total
    r = ctx.run("bal", "-f", "j.ledger", "--flat", "acc")
    accepted(ctx, r)
    nz = [(c, x) for c, x in want if x]
    if len(nz) > 1:
        tot = sorted(l.strip() for l in r.out.split("-----\n")[-1].strip("\n").split("\n"))
        ctx.expect(tot == sorted(show(c, x) for c, x in nz),
                   lambda: "total: expected %r, found %r" % (sorted(show(c, x) for c, x in nz), tot))
    # prices
    ps = []
    for i in range(3):
        t, x = number(rng)
        ps.append((Price(d, "Q" + "abc"[i], Amt(t, "EUR")), x))
    put(ctx, [p for p, _ in ps], rng, "p.ledger")
    r = ctx.run("prices", "-f", "p.ledger")
    accepted(ctx, r)
    exp = ["2020-03-04 %s %s" % (p.comm, show("EUR", x)) for p, x in ps]
    ctx.expect(sorted(r.out.split("\n")[:-1]) == sorted(exp), lambda: "prices: expected %r, found %r" % (exp, r.out))
    ctx.count["amounts"] += n + 3
    ctx.seen([show(c, x) for c, x in want], sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, big=rng.choice([0.05, 0.5]), fine=0.6, cost=0.2, prices=0.5, autos=0.3,
            kinds=["flat", "tree", "reg", "convert", "prices"])
