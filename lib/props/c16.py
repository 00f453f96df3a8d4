"""Conversion"""
import calendar
from datetime import date, timedelta

from ..journal import Amt, Directive, Gen, Posting, Price, Txn, dec
from ..model import F, Ledger, add
from ..reports import amounts, check_flat, check_total, check_tree, parse_balance
from ..util import Violation, accepted, put, sample_of, verdict
from ..world import explore

ID = "C16"
QUICK, THOROUGH = 15000, 375000
WORLD = 0.35
RULE = ("Random journals and quotes (P directives, costs, exchanges; chains of up to 14 commodities, inverse quotes, "
        "superseded quotes, quotes of the future, cycles with alternative chains, unrelated commodities) reported with "
        "-X under a clock the monitor sets, on the day of a quote, around it and far away; flat and tree. The amounts "
        "of every row and the total are those of the reference, which enumerates all chains. Non-trivial: some amount "
        "was converted; distinct by journal, day and commodity.")

NAMES = ["EUR", "USD", "GBP", "BTC", "kg", "Acme", "zinc", "$"]
MORE = ["CHF", "oz", "JPY", "Aa", "h", "pts", "£", "ñ"]


def latest(prices, today):
    """The quote in force for each pair: {(a, b): (date, how many b an a is worth)}"""
    best = {}
    for d, c, v, oc, _ in prices:
        if d > today or c == oc:
            continue
        k = tuple(sorted((c, oc)))
        if k not in best or best[k][0] < d:
            best[k] = (d, c, v, oc)
    return best


def rates(prices, today, target):
    """{commodity: set of acceptable rates}: those of the chains whose quotes are closest to today"""
    best = latest(prices, today)
    adj, newest = {}, {}
    for (a, b), (d, c, v, oc) in best.items():
        # worth of one c is v of oc
        adj.setdefault(a, []).append((b, d, c, v))
        adj.setdefault(b, []).append((a, d, c, v))
        for x in (a, b):
            newest[x] = max(newest.get(x, d), d)
    out = {}

    def walk(node, seen, day, cost, rate):
        for nxt, d, c, v in adj.get(node, []):
            if nxt in seen:
                continue
            step = cost + abs((day - d).days)
            # rate: worth of `node` in target
            r = rate * v if c == nxt else rate / v
            total = step + abs((newest[nxt] - d).days)
            out.setdefault(nxt, []).append((total, r))
            walk(nxt, seen | {nxt}, d, step, r)
    walk(target, {target}, today, 0, F(1))
    return {c: {r for t, r in xs if t == min(t for t, _ in xs)} for c, xs in out.items()}


def convert(bal, rate, target):
    out = {}
    for c, v in bal.items():
        if c == target or c not in rate:
            add(out, c, v)
        else:
            add(out, target, v * rate[c])
    return out


def build(rng, g, names, shape):
    items, seen = [], set()
    days = rng.choice([3, 30, 400])

    def day():
        return date(2019, 1, 1) + timedelta(days=rng.randrange(days))

    def val():
        x = rng.choice([F(2), F(1, 2), F(3), F(125, 100), F(rng.randrange(1, 100000), 100), F(rng.randrange(1, 9999), 10000),
                        F(7), F(1)])
        return dec(x)
    if shape == "chain":
        pairs = list(zip(names, names[1:]))
    elif shape == "star":
        pairs = [(names[0], x) for x in names[1:]]
    elif shape == "tree":
        pairs = [(names[i], names[rng.randrange(i)]) for i in range(1, len(names))]
    elif shape == "forest":
        pairs = [(names[i], names[rng.randrange(i)]) for i in range(1, len(names)) if rng.random() < 0.6]
    else:
        pairs = [(a, b) for i, a in enumerate(names) for b in names[:i] if rng.random() < 0.6]
    for a, b in pairs:
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.5:
                a, b = b, a
            d = day()
            if (d, frozenset((a, b))) in seen:
                continue  # which of two quotes of a day counts is not specified
            seen.add((d, frozenset((a, b))))
            k = rng.random()
            if k < 0.6:
                items.append(Price(d, a, Amt(val(), b)))
            elif k < 0.85:
                q = rng.choice(["1", "-1", "10", "-4", "2.5"])
                items.append(Txn(d, "Buy", [Posting(rng.choice(g.accounts), Amt(q, a), cost=(
                    rng.choice(["@", "@@"]), Amt(val(), b))), Posting(rng.choice(g.accounts))]))
            else:
                x, y = rng.choice([("10", "-3"), ("-2", "7"), ("3", "-1.5")])
                items.append(Txn(d, "Exchange", [Posting(rng.choice(g.accounts), Amt(x, a)),
                                                 Posting(rng.choice(g.accounts), Amt(y, b))]))
    for _ in range(rng.choice([1, 2, 5])):
        c = rng.choice(names)
        items.append(Txn(day(), "Move", [Posting(rng.choice(g.accounts), g.amt(c)), Posting(rng.choice(g.accounts))]))
    rng.shuffle(items)
    return items


def case(ctx, rng, idx):
    names = rng.sample(NAMES, rng.choice([2, 2, 3, 4, 5, 6]))
    shape = rng.choice(["chain", "star", "tree", "forest", "cycle", "cycle"])
    if shape in ("chain", "tree") and rng.random() < 0.2:
        names = rng.sample(NAMES + MORE, rng.randint(7, 14))
    g = Gen(rng, comms=names, notes=0, big=0.02, fine=0.05)
    items = build(rng, g, names, shape)
    rng.shuffle(names)
    v, led = verdict(items)
    if v != "ok":
        return
    ds = sorted({p[0] for p in led.prices})
    today = rng.choice([date(2022, 1, 1), date(2019, 1, 1), date(2024, 2, 29)])
    if ds and rng.random() < 0.7:
        today = rng.choice(ds) + timedelta(days=rng.choice([0, 0, 1, -1, 5]))
    target = rng.choice(names)
    if not led.comms.has(target):
        return
    target = led.comms.get(target)
    rs = rates(led.prices, today, target)
    if len(led.prices) > 40:
        return
    put(ctx, items, rng)
    now = calendar.timegm(today.timetuple()) + rng.choice([0, 1, 43200, 86399])
    comms = set(led.comms.names.values())
    sub, flat, tot = led.subtree(), led.flat(), led.total()
    # a tie between chains is broken by the program, the same way in all the report
    options = [{}]
    used = {c for b in led.balances().values() for c in b}
    for c, xs in sorted(rs.items()):
        if c in used:
            options = [dict(o, **{c: x}) for o in options for x in sorted(xs)]
    if len(options) > 500:
        return
    for kind in ("flat", "tree"):
        args = ["bal", "-f", "j.ledger", "-X", target] + (["--flat"] if kind == "flat" else [])
        if rng.random() < 0.05:
            args.append("--no-total")
        r = ctx.run(*args, now=now)
        accepted(ctx, r)
        rows, total = parse_balance(r.out, comms)
        err = None
        for o in options:
            try:
                if kind == "flat":
                    check_flat(rows, {a: convert(b, o, target) for a, b in flat.items()})
                else:
                    check_tree(rows, {a: convert(b, o, target) for a, b in sub.items()})
                check_total(rows, total, convert(tot, o, target), shown="--no-total" not in args)
                err = None
                break
            except Violation as e:
                err = err or e
        ctx.count["oracle_checks"] += 1
        if err is not None:
            raise Violation("%s on %s: %s" % (args, today, err))
        ctx.count["rows"] += len(rows)
    ctx.count["shape_" + shape] += 1
    ctx.count["rates"] += len(rs)
    ctx.count["ties"] += sum(len(x) > 1 for x in rs.values())
    ctx.count["future_quotes_ignored"] += sum(p[0] > today for p in led.prices)
    if any(c in rs and c != target for b in flat.values() for c in b):
        ctx.seen((ctx.files["j.ledger"], today, target), sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, prices=1, cost=0.2, exchange=0.2, days=rng.choice([30, 400, 700]), same_day=0.05,
            comms=rng.sample(NAMES, rng.choice([2, 3, 4, 5])), kinds=["convert"])
