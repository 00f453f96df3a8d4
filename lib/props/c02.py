"""Elided amounts"""
import copy

from ..journal import Amt, Gen, Posting, Txn, dec
from ..model import F, Ledger
from ..util import (accepted, check_register, check_reports, comms_of, parse_balance, put, register_expected, rejected,
                    sample_of, style, verdict)
from ..world import explore

ID = "C02"
QUICK, THOROUGH = 4500, 112500
WORLD = 0.4
RULE = ("Random journals in which most transactions leave one amount out (any position, 1 to 4 commodities, costs, "
        "virtual postings, rests of up to 40 digits), compared with the reference and with the same journal written "
        "with every amount. A later exact assertion probes the filled amount; a second blank has to be rejected. "
        "Non-trivial: at least one blank with something to fill.")


def explicit(items):
    """The same journal with every blank written out"""
    out = []
    led = Ledger(items)
    by = {id(t.src): t for t in led.txns}
    for t in items:
        m = by[id(t)]
        u = copy.copy(t)
        u.postings = [p for p in t.postings if p.amt is not None and p.kind == "R"]
        blank = [p for p in t.postings if p.amt is None]
        for p in m.postings:
            if p.origin == "fill":
                u.postings.append(Posting(p.account, Amt(dec(p.val), p.comm), notes=list(blank[0].notes)))
        u.postings += [p for p in t.postings if p.kind != "R"]
        out.append(u)
    return out


def case(ctx, rng, idx):
    g = Gen(rng, blank=0.85, multi=0.5, cost=0.25, notes=0.1, big=0.1, fine=0.2,
            max_postings=rng.choice([3, 5, 5, 60]))
    items = g.journal(rng.choice([1, 2, 3, 6]))
    for t in items:
        for p in t.postings:
            if p.amt is None and rng.random() < 0.4:
                p.notes = [rng.choice([":filled:", "kind: filled"])]
    v, led = verdict(items)
    if v != "ok":
        return
    fills = [(t, p) for t in led.txns for p in t.postings if p.origin == "fill"]
    put(ctx, items, rng)
    which = rng.choice([("flat",), ("reg",), ("tree",)])
    check_reports(ctx, led, which=which)
    if rng.random() < 0.5:
        r = ctx.run("reg", "-f", "j.ledger")
        put(ctx, explicit(items), rng, "explicit.ledger")
        s = ctx.run("reg", "-f", "explicit.ledger")
        accepted(ctx, s)
        ctx.expect(r.out == s.out, lambda: "leaving amounts out changes the register\n%s---\n%s" % (r.out, s.out))
    if rng.random() < 0.4:
        # the comments of the blank posting belong to what fills it
        q = rng.choice(["filled", "kind"])
        keep = lambda t, p: any(q in n for n, _ in p.tags)
        r = ctx.run("reg", "-f", "j.ledger", "%" + q)
        accepted(ctx, r)
        check_register(r.out, register_expected(led, keep), ctx)
    if fills and rng.random() < 0.7:
        # exactness: assert the balance of the account in a later transaction
        t, p = rng.choice(fills)
        bal = {}
        for tt, pp in led.all():
            if pp.account == p.account and pp.kind == "R" and pp.comm == p.comm:
                bal[p.comm] = bal.get(p.comm, F(0)) + pp.val
        want = bal[p.comm]
        off = rng.random() < 0.5
        if off:
            want += F(1, 10 ** rng.choice([2, 6, 12, 25, 35])) * rng.choice([1, -1])
        last = max(x.date for x in items)
        probe = Txn(last, "Probe", [Posting(p.account, Amt("0", p.comm), bal=Amt(dec(want), p.comm))])
        put(ctx, items + [probe], rng, "probe.ledger")
        r = ctx.run("bal", "-f", "probe.ledger")
        (rejected if off else accepted)(ctx, r, "a journal asserting the filled amount" + (" wrongly" if off else ""))
        ctx.count["probes"] += 1
    blanks = [t for t in items if any(p.amt is None for p in t.postings)]
    if blanks and rng.random() < 0.4:
        bad = copy.deepcopy(items)
        t = rng.choice([t for t in bad if any(p.amt is None for p in t.postings)])
        if rng.random() < 0.25:
            t.postings = [p for p in t.postings if p.kind != "R" and rng.random() < 0.5] + [Posting(rng.choice(g.accounts))]
        t.postings.insert(rng.randrange(len(t.postings) + 1), Posting(rng.choice(g.accounts)))
        put(ctx, bad, rng, "two.ledger")
        rejected(ctx, ctx.run(rng.choice(["bal", "reg", "prices"]), "-f", "two.ledger"), "a transaction with two blanks")
    ctx.count["fills"] += len(fills)
    if fills:
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, blank=0.85, multi=0.5, cost=0.3, tags=0.6, kinds=["flat", "tree", "reg", "reg"])
