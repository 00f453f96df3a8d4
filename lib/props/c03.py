"""Exact arithmetic"""
from datetime import date, timedelta

from ..journal import Amt, Auto, Posting, Price, Txn, dec
from ..model import F, Ledger, show
from ..util import accepted, parse_balance, put, rejected, sample_of
from ..world import explore

ID = "C03"
QUICK, THOROUGH = 6000, 150000
WORLD = 0.35
RULE = ("Sums, unit and total costs, products, quotients and conversions of amounts of up to 60 digits and 40 decimals, "
        "in up to 400 postings. Each result is probed with an assertion of its exact value, which has to be accepted, "
        "and with one which differs in the last decimals, which has to be rejected; conversions multiply a quotient "
        "back to a whole number. Non-trivial: a probe was evaluated; distinct by journal text.")


def number(rng):
    places = rng.choice([0, 1, 2, 3, 5, 9, 17, 18, 19, 28, 40])
    digits = rng.choice([1, 2, 5, 10, 16, 17, 19, 20, 25, 39, 60])
    x = F(rng.randrange(1, 10 ** digits), 10 ** places)
    return x if rng.random() < 0.5 else -x


def case(ctx, rng, idx):
    kind = rng.choice(["sum", "sum", "unit", "cancel", "drip", "auto", "quotient", "inverse", "price", "implicit", "total", "expr", "rate"])
    d = date(2020, 1, 1)
    items, c = [], "EUR"
    ctx.count["kind_" + kind] += 1
    if kind in ("sum", "cancel", "drip"):
        tot = F(0)
        n = rng.choice([2, 3, 10, 50]) if kind != "drip" else rng.choice([100, 400])
        step = F(1, 10 ** rng.choice([1, 2, 7, 17, 30]))
        for i in range(n):
            x = number(rng) if kind == "sum" else step
            if kind == "cancel":
                # something huge, something tiny, the huge thing back
                big = F(10 ** rng.choice([15, 17, 20, 30, 55]))
                x = [big, step, -big][i % 3]
            tot += x
            items.append(Txn(d + timedelta(days=i % 20), "x", [Posting("A", Amt(dec(x), c)), Posting("B")]))
        unit = step if kind != "sum" else F(1, 10 ** 40)
        last = d + timedelta(days=30)
    elif kind == "unit":
        a, p = number(rng), abs(number(rng))
        items = [Txn(d, "buy", [Posting("S", Amt(dec(a), "ACME"), cost=("@", Amt(dec(p), c))), Posting("A")])]
        tot, last, unit = -a * p, d + timedelta(days=1), F(1, 10 ** 80)
    elif kind == "auto":
        a, p = number(rng), number(rng)
        items = [Auto("S", [Posting("A", Amt(dec(p), "")), Posting("Z", Amt(dec(-p), ""))]),
                 Txn(d, "x", [Posting("S", Amt(dec(a), c)), Posting("B")])]
        # The account of an automated posting gets it after the assertions were probed: look at the report
        put(ctx, items, rng)
        r = ctx.run("bal", "-f", "j.ledger", "--flat", "^A$")
        accepted(ctx, r)
        want = show(c, a * p)
        v = a * p
        ctx.expect(want in r.out, lambda: "expected %s, found %s" % (want, r.out))
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
        return
    elif kind in ("price", "total", "expr"):
        # a number with many decimals, taken to a whole one
        k = rng.choice([3, 6, 9, 10, 12, 18, 19, 20, 27, 30, 40])
        m = rng.randrange(1, 10 ** rng.choice([1, k, k + 1, k + 5])) * 10 + rng.randrange(1, 10)
        x = F(m, 10 ** k)
        have = F(10) ** k * rng.choice([1, 3, 7])
        if kind == "price":
            items = [Price(d, "ACME", Amt(dec(x), c)), Txn(d, "y", [Posting("H", Amt(dec(have), "ACME")), Posting("I")])]
            args = ["^H$", "-X", c]
        elif kind == "total":
            items = [Txn(d, "x", [Posting("S", Amt("1", "ACME"), cost=("@@", Amt(dec(x), c))), Posting("A")]),
                     Txn(d, "y", [Posting("H", Amt(dec(have), "ACME")), Posting("I")])]
            args = ["^H$", "-X", c]
        else:
            e = rng.choice(["(amount * %s)", "(%s * amount)", "(%s)", "(amount * %s / 3 * 3)"])
            items = [Auto("^S$", [Posting("H", expr=e % dec(x), kind="V")]),
                     Txn(d, "x", [Posting("S", Amt(dec(have), c)), Posting("B")])]
            args = ["^H$"]
        put(ctx, items, rng)
        r = ctx.run("bal", "-f", "j.ledger", "--flat", *args)
        accepted(ctx, r)
        want = show(c, have * x)
        ctx.expect(r.out.split("\n")[0].split("  H")[0].strip() == want,
                   lambda: "expected %s, found %s" % (want, r.out))
        if kind == "expr":
            # and compared exactly
            for off in (F(0), F(1, 10 ** rng.choice([k, k + 3, 2 * k]))):
                y = x * have + off
                t = "amount * %s == %s" % (dec(x), dec(y))
                r = ctx.run("reg", "-f", "j.ledger", "expr", "(%s) and account =~ /^S$/" % t)
                accepted(ctx, r)
                ctx.expect((r.out != "") == (off == 0), lambda: "%s of %s is %s" % (t, dec(have), r.out != ""))
        ctx.count["probes"] += 1
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
        return
    elif kind == "rate":
        # amounts which end next to a half once converted
        p = rng.choice(["3", "7", "0.3", "1.1", "0.0007", "13.37"])
        q = F(rng.randrange(10 ** 6) * 10 + 5, 1000) + rng.choice([-1, 0, 1]) * F(1, 10 ** rng.choice([4, 6, 9, 15, 30]))
        have = q / F(p)
        places = rng.choice([8, 20, 35])
        have = F(round(have * 10 ** places), 10 ** places)
        if not have:
            return
        items = [Price(d, "ACME", Amt(p, c)), Txn(d, "y", [Posting("H", Amt(dec(have), "ACME")), Posting("I")])]
        put(ctx, items, rng)
        r = ctx.run("bal", "-f", "j.ledger", "--flat", "^H$", "-X", c)
        accepted(ctx, r)
        want = show(c, have * F(p))
        ctx.expect(r.out.split("\n")[0].split("  H")[0].strip() == want, lambda: "expected %s, found %s" % (want, r.out))
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
        return
    else:
        # A price which is not a decimal number, multiplied back
        k = rng.choice([3, 7, 9, 11, 13, 17, 97, 123457])
        m = rng.randrange(1, 10 ** rng.choice([1, 5, 18, 25]))
        if m % k == 0:
            m += 1
        q = rng.randrange(1, 10 ** rng.choice([1, 6, 18, 22]))
        if kind == "implicit":  # the same without a price
            ps = [Posting("S", Amt(str(k), "ACME")), Posting("A", Amt(str(-m), c))]
            if rng.random() < 0.5:
                ps.reverse()
            items = [Txn(d, "x", ps)]
            have, conv = k * q, F(m * q)
        elif kind == "quotient":  # k ACME are worth m EUR, there are k * q
            items = [Txn(d, "x", [Posting("S", Amt(str(k), "ACME"), cost=("@@", Amt(str(m), c))), Posting("A")])]
            have, conv = k * q, F(m * q)
        else:  # an ACME costs k ZZZ, convert ZZZ into ACME
            items = [Price(d, "ACME", Amt(str(k), "ZZZ"))]
            have, conv = k * q, F(q)
        target, held = (c, "ACME") if kind != "inverse" else ("ACME", "ZZZ")
        items.append(Txn(d, "y", [Posting("H", Amt(str(have), held)), Posting("I")]))
        put(ctx, items, rng)
        r = ctx.run("bal", "-f", "j.ledger", "--flat", "^H$", "-X", target)
        accepted(ctx, r)
        want = show(target, conv)
        ctx.expect(r.out.split("\n")[0].split("  H")[0].strip() == want,
                   lambda: "expected %s, found %s" % (want, r.out))
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
        return
    Ledger(items)
    for off in (F(0), unit * rng.choice([1, -1])):
        probe = Txn(last, "probe", [Posting("A", Amt("0", c), bal=Amt(dec(tot + off), c))])
        put(ctx, items + [probe], rng)
        r = ctx.run(rng.choice(["bal", "reg", "prices"]), "-f", "j.ledger")
        ctx.count["probes"] += 1
        (rejected if off else accepted)(ctx, r, "an assertion which is %s" % ("off by %s" % dec(off) if off else "exact"))
    r = ctx.run("bal", "-f", "j.ledger", "--flat", "--no-balance-check", "^A$")
    want = show(c, tot)
    if tot:
        ctx.expect(want in r.out, lambda: "expected %s, found %s" % (want, r.out))
    ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, big=0.4, fine=0.6, cost=0.3, asserts=0.8, autos=0.4, prices=0.6,
            kinds=["flat", "tree", "reg", "convert", "convert", "prices"])
