"""Date limits and --real"""
from datetime import date, timedelta

from ..journal import Gen
from ..util import accepted, check_flat, check_register, check_reports, parse_balance, put, register_expected, sample_of, verdict
from ..world import World
from ..model import add

ID = "C11"
QUICK, THOROUGH = 5000, 125000
WORLD = 0.5
RULE = ("Random journals reported with -b/--begin, -e/--end, --real and combinations; the limits are dates of the "
        "journal, the days around them, ends of months, leap days, whole months and whole years in every accepted "
        "notation. Every row is compared with the reference; the reports before and from a day must add up to the "
        "whole one. Non-trivial: the limits leave some posting out and some in; distinct by arguments and journal.")


def day(rng, items):
    d = rng.choice(items).date + timedelta(days=rng.choice([0, 0, 0, 1, -1]))
    if rng.random() < 0.15:
        d = rng.choice([date(2020, 2, 29), date(2020, 1, 1), date(2019, 12, 31), date(2020, 3, 1), date(2019, 3, 1)])
    k = rng.random()
    if k < 0.12:
        d = d.replace(day=1)
        return d, rng.choice(["%d-%02d", "%d/%02d", "%d-%d"]) % (d.year, d.month)
    if k < 0.135:
        d = d.replace(day=1, month=1)
        return d, str(d.year)
    return d, rng.choice(["%d-%02d-%02d", "%d/%02d/%02d", "%d-%d-%d", "%d/%d/%d"]) % (d.year, d.month, d.day)


def case(ctx, rng, idx):
    g = Gen(rng, virtual=0.35, must=0.2, notes=0.05, effective=0.2, days=rng.choice([4, 60, 700]))
    items = g.journal(rng.choice([2, 4, 8, 15]))
    v, led = verdict(items)
    if v != "ok":
        return
    put(ctx, items, rng)
    b = e = None
    args = []
    if rng.random() < 0.7:
        b, s = day(rng, items)
        args += [rng.choice(["-b", "--begin"]), s]
    if rng.random() < 0.7:
        e, s = day(rng, items)
        args += [rng.choice(["-e", "--end"]), s]
    real = rng.random() < 0.4
    if real:
        args.insert(rng.choice([0, len(args)]), "--real")

    def keep(t, p):
        return (b is None or t.date >= b) and (e is None or t.date < e) and (not real or p.kind == "R")
    check_reports(ctx, led, keep=keep, args=args, which=(rng.choice(["flat", "tree"]), "reg"))
    n = sum(1 for _ in led.all())
    k = sum(1 for _ in led.all(keep))
    if 0 < k < n:
        ctx.seen((args, ctx.files["j.ledger"]), sample_of(ctx))
    if rng.random() < 0.3:
        # nothing is lost or counted twice around a day
        d, s = day(rng, items)
        comms = set(led.comms.names.values())
        tot = {}
        before = ctx.run("reg", "-f", "j.ledger", "-e", s)
        after = ctx.run("reg", "-f", "j.ledger", "-b", s)
        accepted(ctx, before)
        accepted(ctx, after)
        check_register(before.out, register_expected(led, lambda t, p: t.date < d), ctx)
        check_register(after.out, register_expected(led, lambda t, p: t.date >= d), ctx)
        ctx.count["splits"] += 1


def world(ctx, rng):
    w = World(rng, virtual=0.35, must=0.2, effective=0.2, autos=0.5)
    if w.verdict != "ok":
        return
    w.put(ctx)
    for _ in range(2):
        w.ask(ctx, rng.choice(["flat", "tree", "reg", "reg"]), limits=0.6, real=0.5, query=0.2)
    ctx.seen((ctx.trace[-1]["args"], ctx.files["j.ledger"]), sample_of(ctx))
