"""Reports agree with each other"""
import re
from datetime import timedelta
from fractions import Fraction as F

from ..expr import ExprGen
from ..journal import Amt, Gen, Posting, Txn, dec, write
from ..util import COMMANDS, accepted, comms_of, parse_balance, put, sample_of, style
from ..world import World
from ..reports import resolve_tree
from .c09 import full_journal
from .c23 import damage

ID = "C31"
QUICK, THOROUGH = 3000, 75000
RULE = ("Random journals with amounts of two decimals, so that what is shown is exact, right, wrong and damaged. No reference: the "
        "outputs of the same journal are compared with each other. All commands have the same verdict; the register adds up to "
        "the flat balance by account and to the total, the tree to the flat balance, each --depth to the full report, a query and its negation to everything, "
        "before and after a day to everything; accounts and commodities shown are in their lists. Non-trivial: the "
        "register has rows; distinct by journal.")
ACC = ["Assets:Cash", "Assets:Bank", "Assets", "Expenses:Food", "Expenses:Food:Out", "Income", "Equity:Open", "Ñ:a", "A:B:C:D", "A:B", "A:B:Cx"]


def money(s):
    m = re.match(r"^(-?\d+\.\d\d) (\S.*)$", s)
    if m:
        return m.group(2), F(m.group(1))
    if s == "0":
        return None, F(0)
    raise ValueError(s)


def plus(a, b, sign=1):
    out = dict(a)
    for c, v in b.items():
        out[c] = out.get(c, F(0)) + sign * v
        if out[c] == 0:
            del out[c]
    return out


def read_register(ctx, out):
    """[(account, {comm: amount})], the last running total"""
    rows, run = [], {}
    for line in out.split("\n"):
        if not line:
            continue
        # neither the accounts nor the commodities of these journals have spaces
        m = re.match(r"^(?:(.*\S)\s+(-?\d+\.\d\d \S+|0))?\s+(-?\d+\.\d\d \S+|0)$", line)
        if not m:
            ctx.fail("a line of the register cannot be read: %r" % line)
        if m.group(1):
            c, v = money(m.group(2))
            rows.append((m.group(1).split()[-1].strip("()[]"), {c: v} if v else {}))
            run = {}
        c, v = money(m.group(3))
        if v:
            run[c] = v
    return rows, run


def by_account(rows):
    out = {}
    for a, m in rows:
        out[a] = plus(out.get(a, {}), m)
    return {a: b for a, b in out.items() if b}


def flat(ctx, out, comms):
    rows, total = parse_balance(out, comms)
    res = {}
    for r in rows:
        ctx.expect(r.label not in res, lambda: "account %r twice" % r.label)
        res[r.label] = {c: v for c, v in map(money, r.amounts) if v}
    return res, ({c: v for c, v in map(money, total) if v} if total is not None else None)


def case(ctx, rng, idx):
    g = Gen(rng, accounts=rng.sample(ACC, rng.randint(2, 7)), comms=rng.sample(["EUR", "USD", "GBP", "kg"], rng.randint(1, 3)),
            descs=["Shop", "Rent", "Café"], big=0, fine=0, cost=0, payee=0, notes=0, days=rng.choice([4, 100]), max_postings=6)
    items = g.journal(rng.choice([1, 3, 8, 25]))
    k = rng.random()
    if k < 0.35:
        return same_verdict(ctx, rng, g, items)
    if rng.random() < 0.4:
        w = World(rng, accounts=g.accounts, comms=rng.sample(["EUR", "USD", "GBP", "kg", "BTC", "oz", "CHF", "pts"], rng.randint(1, 8)),
                  descs=g.descs, big=0, fine=0, cost=0, autos=0, multi=0.7, rules=0)
        if w.verdict != "ok":
            return
        w.put(ctx)
        items, comms = w.led.txns, w.comms
    else:
        put(ctx, items, rng)
        comms = set(g.comms)
    sel = rng.choice([[], [], ["--real"], ["-b", rng.choice(items).date.isoformat()], ["-e", rng.choice(items).date.isoformat()]])
    base = ["-f", "j.ledger"] + sel
    reg = ctx.run("reg", *base)
    accepted(ctx, reg)
    rows, run = read_register(ctx, reg.out)
    fl = ctx.run("bal", "--flat", *base)
    accepted(ctx, fl)
    accs, total = flat(ctx, fl.out, comms)
    want = by_account(rows)
    ctx.expect(accs == want, lambda: "the flat balance is %r, the register adds up to %r" % (accs, want))
    everything = {}
    for b in want.values():
        everything = plus(everything, b)
    ctx.expect(run == everything, lambda: "the last running total is %r, the sum of the rows is %r" % (run, everything))
    if total is not None:
        ctx.expect(total == everything, lambda: "the total is %r, the sum %r" % (total, everything))
    # the tree
    tr = ctx.run("bal", *base)
    accepted(ctx, tr)
    trows, ttotal = parse_balance(tr.out, comms)
    tree = {a: {c: v for c, v in map(money, r.amounts) if v} for a, r in resolve_tree(trows)}
    for a, b in tree.items():
        s = {}
        for x, y in want.items():
            if x == a or x.startswith(a + ":"):
                s = plus(s, y)
        ctx.expect(s == b, lambda: "the tree has %r in %r, the flat balance %r" % (b, a, s))
    if ttotal is not None:
        ctx.expect({c: v for c, v in map(money, ttotal) if v} == everything, lambda: "the total of the tree is %r" % ttotal)
    # depth
    d = rng.randint(1, 4)
    dp = ctx.run("bal", "--flat", "--depth", d, *base)
    accepted(ctx, dp)
    got, _ = flat(ctx, dp.out, comms)
    cut = {}
    for a, b in want.items():
        k = ":".join(a.split(":")[:d])
        cut[k] = plus(cut.get(k, {}), b)
    cut = {a: b for a, b in cut.items() if b}
    ctx.expect(got == cut, lambda: "--depth %d is %r, the full report cut %r" % (d, got, cut))
    # a query and its negation
    w = rng.choice(["Assets", "Food", "A:B", "Income$", "^E", "o"])
    parts = []
    for q in ("account =~ /%s/" % w, "not (account =~ /%s/)" % w):
        r = ctx.run("reg", *base, "expr", q)
        accepted(ctx, r)
        x, y = read_register(ctx, r.out)
        parts.append(x)
    both = sorted(map(repr, parts[0] + parts[1]))
    ctx.expect(both == sorted(map(repr, rows)), lambda: "what matches /%s/ and what does not are not everything: %r %r" % (
        w, parts, rows))
    ctx.expect(all(re.search(w, a) for a, _ in parts[0]), lambda: "%r does not match /%s/" % (parts[0], w))
    # a day
    day = rng.choice(items).date + timedelta(days=rng.choice([0, 0, 1]))
    if not sel or sel == ["--real"]:
        a = ctx.run("reg", *base, "-e", day.isoformat())
        b = ctx.run("reg", *base, "-b", day.isoformat())
        accepted(ctx, a)
        accepted(ctx, b)
        x, y = read_register(ctx, a.out)[0], read_register(ctx, b.out)[0]
        ctx.expect(x + y == rows, lambda: "before and after %s are not everything" % day)
    names = ctx.run("accounts", "-f", "j.ledger")
    accepted(ctx, names)
    lst = set(names.out.split("\n"))
    ctx.expect({a for a, _ in rows} <= lst, lambda: "not in the list of accounts: %r" % ({a for a, _ in rows} - lst))
    cl = ctx.run("commodities", "-f", "j.ledger")
    accepted(ctx, cl)
    ctx.expect({c for _, m in rows for c in m} <= set(cl.out.split("\n")), lambda: "commodities: %r" % cl.out)
    ctx.count["register_rows"] += len(rows)
    if rows:
        ctx.seen((ctx.files["j.ledger"], sel), sample_of(ctx))


def same_verdict(ctx, rng, g, items):
    if rng.random() < 0.5:
        return world_verdict(ctx, rng)
    if rng.random() < 0.5:
        items.append(Txn(g.a_date(), "Wrong", [Posting("a", Amt("1", "EUR")),
                                               Posting("b", Amt(rng.choice(["2", "-1", "-1.001"]), "EUR"))]))
    text = write(items, style(rng))
    for _ in range(rng.choice([0, 1, 1, 2])):
        text = damage(rng, text)
    if text.count("(") > 200:
        return
    ctx.write("j.ledger", text)
    codes = {c: ctx.run(c, "-f", "j.ledger") for c in COMMANDS}
    ctx.expect(not any(r.sig or r.timeout for r in codes.values()), "killed or endless")
    ok = {c: r.rc == 0 for c, r in codes.items()}
    ctx.expect(len(set(ok.values())) == 1, lambda: "the commands do not agree: %r" % ok)
    ctx.count["verdict_%s" % ok["bal"]] += 1
    ctx.seen(text, sample_of(ctx))


def world_verdict(ctx, rng):
    """All the commands think the same of a journal, whatever is wrong with it"""
    from .c01 import mutate
    w = World(rng, asserts=0.7)
    if w.items is None:
        return
    if rng.random() < 0.5:
        _, w.items = mutate(rng, w.items, w.g)
    if rng.random() < 0.4:
        done = [p for t in w.items if isinstance(t, Txn) for p in t.postings if p.bal is not None]
        if done:
            p = rng.choice(done)
            p.bal.text = dec(p.bal.val + rng.choice([1, F(1, 100), -F(1, 1000)]))
    ctx.write("j.ledger", write(w.items, style(rng)))
    codes = {}
    for c in COMMANDS:
        opts = []
        codes[c] = ctx.run(c, *opts, "-f", "j.ledger")
    ok = {c: r.rc == 0 for c, r in codes.items()}
    ctx.expect(not any(r.sig or r.timeout for r in codes.values()), "killed or endless")
    ctx.expect(len(set(ok.values())) == 1, lambda: "the commands do not agree: %r" % ok)
    ctx.count["verdict_%s" % ok["bal"]] += 1
    # nor does the selection of a report change it
    for _ in range(2):
        c = rng.choice([["bal", "--flat"], ["bal", "--depth", "1"], ["reg", "--real"], ["bal", "nothing like this"], ["reg", "a"],
                        ["reg", "-b", "2019-06-01"], ["bal", "-e", "2019-01-01"], ["bal", "--no-total"], ["reg", "--force-color"]])
        r = ctx.run(*c, "-f", "j.ledger")
        ctx.expect((r.rc == 0) == ok["bal"], lambda: "bal exits with %s, %r with %s" % (codes["bal"].rc, c, r.rc))
    ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
