"""Dates"""
import calendar
import re
from datetime import date, timedelta

from ..journal import Amt, Posting, Price, Style, Txn, write
from ..util import COMMANDS, accepted, rejected, sample_of, style

ID = "C29"
QUICK, THOROUGH = 15000, 375000
RULE = ("Journals and lists of prices with hundreds of days of any year between 1 and 9999, dense around ends of months, leap days and "
        "centuries, in every notation and any order: the register and the list of prices show those days, in order, and "
        "--begin and --end cut at the right place. Every combination of month 0 to 14 and day 0 to 33, with years of every kind, and "
        "mixed separators: those which are no day of the calendar have to be rejected, in transactions, effective dates, prices and "
        "options. Non-trivial: every case; distinct by dates.")
YEARS = [2019, 2020, 2021, 2022, 2000, 1900, 2100, 1600, 1999, 2400, 1, 4, 100, 400, 999, 1000, 9999, 1970, 1969, 2038, 2262, 1583, 1582]


def any_day(rng):
    k = rng.random()
    y = rng.choice(YEARS) if rng.random() < 0.7 else rng.randint(1, 9999)
    if k < 0.3:
        m = rng.randint(1, 12)
        last = calendar.monthrange(y, m)[1]
        d = date(y, m, rng.choice([1, last, last, last - 1, 9, 10, 11, 19, 20, 29 if last >= 29 else 28]))
    elif k < 0.4:
        d = date(y, 2, calendar.monthrange(y, 2)[1])
    else:
        d = date(y, 1, 1) + timedelta(days=rng.randrange(365))
    return d


def valid(y, m, d):
    try:
        date(y, m, d)
        return True
    except ValueError:
        return False


def case(ctx, rng, idx):
    if rng.random() < 0.7:
        return one(ctx, rng)
    days = [any_day(rng) for _ in range(rng.choice([3, 20, 100, 300]))]
    st = style(rng)
    if rng.random() < 0.3:
        items = [Price(d, "C%s" % "".join(rng.choice("abcdefgh") for _ in range(5)), Amt("2", "EUR")) for d in days]
        for p in items:
            p.time = rng.choice([None, None, "00:00:00", "23:59:59", "19:00:00", "20:30:40"])
        ctx.write("j.ledger", write(items, st))
        r = ctx.run("prices", "-f", "j.ledger")
        accepted(ctx, r)
        got = sorted(tuple(l.split()[:2]) for l in r.out.split("\n") if l)
        want = sorted((d.isoformat(), p.comm) for d, p in zip(days, items))
        ctx.expect(got == want, lambda: "the dates of the prices are others: %r" % sorted(set(got) ^ set(want))[:6])
        ctx.count["dates_of_prices"] += len(days)
    else:
        items = []
        for i, d in enumerate(days):
            t = Txn(d, "t%d" % i, [Posting("a", Amt("1", "EUR")), Posting("b")])
            if rng.random() < 0.2:
                t.effective = any_day(rng)
            if rng.random() < 0.2:
                t.time = rng.choice(["00:00:00", "23:59:59", "19:59:59", "20:00:00"])
            items.append(t)
        ctx.write("j.ledger", write(items, st))
        args, b, e = [], None, None
        if rng.random() < 0.5:
            b = rng.choice(days + [any_day(rng)])
            args += ["-b", rng.choice(["%04d-%02d-%02d", "%04d/%02d/%02d", "%04d-%d-%d", "%04d/%d/%d"]) % (b.year, b.month, b.day)]
        if rng.random() < 0.5:
            e = rng.choice(days + [any_day(rng)])
            args += ["-e", rng.choice(["%04d-%02d-%02d", "%04d/%02d/%02d", "%04d-%d-%d", "%04d/%d/%d"]) % (e.year, e.month, e.day)]
        r = ctx.run("reg", "-f", "j.ledger", *args)
        accepted(ctx, r)
        got = [tuple(l.split()[:2]) for l in r.out.split("\n") if l[:1] not in ("", " ")]
        want = [(d.isoformat(), "t%d" % i) for i, d in sorted(enumerate(days), key=lambda x: x[1])
                if (b is None or d >= b) and (e is None or d < e)]
        ctx.expect(got == want, lambda: "the register %r shows %r, it should be %r" % (
            args, [x for x in got if x not in want][:5] or got[:5], [x for x in want if x not in got][:5] or want[:5]))
        ctx.count["dates_of_transactions"] += len(days)
    ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def one(ctx, rng):
    """A single date, which may not exist"""
    y, m, d = rng.choice(YEARS[:10]), rng.randint(0, 14), rng.randint(0, 33)
    if rng.random() < 0.5:
        m = rng.randint(1, 12)
        d = rng.choice([28, 29, 30, 31, 32, 1, 0])
    a = rng.choice("-/.")
    b = a if rng.random() < 0.85 else rng.choice("-/.")
    text = "%d%s%s%s%s" % (y, a, rng.choice(["%d", "%02d"]) % m, b, rng.choice(["%d", "%02d"]) % d)
    good = valid(y, m, d) and a == b
    where = rng.choice(["txn", "txn", "effective", "price", "option"])
    plain = "2020-01-01 plain\n    a  1 EUR\n    b\n\n"
    args = []
    if where == "txn":
        j = "%s %s\n    a  1 EUR\n    b\n" % (text, rng.choice(["x", "* x", "! x | y"]))
    elif where == "effective":
        j = "2020-01-01=%s x\n    a  1 EUR\n    b\n" % text
    elif where == "price":
        j = "P %s %sAAA 2 EUR\n" % (text, rng.choice(["", "", "12:00:00 "]))
    else:
        if "." in (a, b) or a != b:
            return
        j = plain
        args = [rng.choice(["-b", "-e", "--begin", "--end"]), text]
    ctx.write("j.ledger", (plain if rng.random() < 0.5 else "") + j)
    cmd = {"price": "prices", "option": rng.choice(["reg", "bal"])}.get(where, "reg")
    if not good and where != "option":
        cmd = rng.choice(COMMANDS)
    r = ctx.run(cmd, "-f", "j.ledger", *args)
    ctx.count["%s_%s" % (where, "valid" if good else "invalid")] += 1
    if good:
        accepted(ctx, r, "the date %s (%s)" % (text, where))
        iso = date(y, m, d).isoformat()
        if where in ("txn", "price"):
            ctx.expect(any(l.startswith(iso) for l in r.out.split("\n")), lambda: "%s is shown as something else: %r" % (
                text, r.out))
        elif where == "option" and cmd == "reg":
            shown = "plain" in r.out
            want = date(2020, 1, 1) >= date(y, m, d) if args[0] in ("-b", "--begin") else date(2020, 1, 1) < date(y, m, d)
            ctx.expect(shown == want, lambda: "%r: %r" % (args, r.out))
    else:
        rejected(ctx, r, "the date %s (%s)" % (text, where))
    ctx.seen((where, text), sample_of(ctx))
