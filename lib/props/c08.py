"""Balance assertions and assignments"""
import copy
from datetime import timedelta

from ..journal import ACCOUNTS, Amt, Gen, Posting, Txn, dec
from ..model import F, Ledger
from ..util import accepted, check_reports, put, rejected, sample_of, verdict, COMMANDS
from ..world import World

ID = "C08"
QUICK, THOROUGH = 9000, 225000
WORLD = 0.5
RULE = ("Random journals whose postings assert or assign balances ('amount = balance', '= balance'), right and wrong by "
        "as little as 1e-30, in files whose order is not that of the dates, several per day and per transaction, next "
        "to blanks, costs, other commodities and virtual postings; verdict and balances come from the reference, with "
        "and without --no-balance-check. Non-trivial: at least one assertion was reached; distinct by journal.")


def case(ctx, rng, idx):
    g = Gen(rng, blank=0.5, notes=0.05, multi=rng.choice([0, 0.3]), cost=rng.choice([0.1, 0.1, 0.5]), same_day=0.5, days=rng.choice([5, 60]),
            comms=rng.sample(["EUR", "USD", "kg"], rng.choice([1, 1, 2, 3])), accounts=None, zero=0.1,
            virtual=0.1, must=0.05)
    g.accounts = g.accounts[: rng.randint(2, 4)]
    items = g.journal(rng.choice([1, 2, 3, 5, 9]))
    # Assert what the reference says, as it is reached
    led = None
    wrong = rng.random() < 0.45
    try:
        led = Ledger(items)
    except Exception:
        return
    running, spots = {}, []
    for t in led.txns:
        # the blank is filled after everything else
        for p in t.postings:
            if p.kind != "R":
                continue
            b = running.setdefault(p.account, {})
            b[p.comm] = b.get(p.comm, F(0)) + p.val
            if p.origin == "txn":
                spots.append((t, p, dict(b)))
    if not spots:
        return
    n = 0
    for t, p, b in spots:
        if rng.random() < 0.4:
            comm = p.comm if rng.random() < 0.85 else rng.choice(g.comms)
            p.src.bal = Amt(dec(b.get(comm, F(0))), comm)
            n += 1
            others = [c for c, v in b.items() if c != comm and v]
            if not others and rng.random() < 0.35 and comm == p.comm and not p.src.cost and not any(
                    q.amt is None for q in t.src.postings):
                p.src.amt = None  # an assignment
                ctx.count["assignments"] += 1
    done = [p for t, p, b in spots if p.src.bal is not None]
    if not done:
        return
    if wrong:
        p = rng.choice(done)
        d = F(1, 10 ** rng.choice([0, 1, 2, 3, 6, 10, 17, 20, 30])) * rng.choice([1, -1])
        k = rng.choice(["delta", "delta", "sign", "comm", "zero", "amount", "before"])
        if rng.random() < 0.3:
            p = rng.choice([q for q in done if q.src.cost] or done)
        if k == "delta":
            p.src.bal.text = dec(p.src.bal.val + d)
        elif k == "zero":
            p.src.bal.text = "0"
        elif k == "amount":
            p.src.bal.text = dec(p.val)
        elif k == "before":
            p.src.bal.text = dec(p.src.bal.val - p.val)
        elif k == "sign":
            p.src.bal.text = dec(-p.src.bal.val)
        else:
            p.src.bal.comm = rng.choice(["EUR", "USD", "kg"])
    order = list(items)
    if rng.random() < 0.3:
        # the order of the file does not matter between days
        order.sort(key=lambda t: t.date, reverse=True)
        items = order
    v, led = verdict(items)
    if v is None:
        return
    put(ctx, items, rng)
    cmd = rng.choice(COMMANDS)
    r = ctx.run(cmd, "-f", "j.ledger")
    ctx.count["assertions"] += n
    if v == "ok":
        accepted(ctx, r, "a journal whose assertions hold")
        check_reports(ctx, led, which=(rng.choice(["flat", "tree", "reg"]),))
    else:
        rejected(ctx, r, "a journal with a wrong assertion or assignment (%s)" % led.why)
    if rng.random() < 0.4:
        v, led = verdict(items, check=False)
        cmd = rng.choice(COMMANDS)
        r = ctx.run(cmd, "-f", "j.ledger", "--no-balance-check")
        if v == "ok":
            accepted(ctx, r, "with --no-balance-check, a journal which balances")
            check_reports(ctx, led, args=("--no-balance-check",), which=(rng.choice(["flat", "reg"]),))
        elif v == "reject":
            rejected(ctx, r, "a journal which does not balance (%s)" % led.why)
        ctx.count["without_checks"] += 1
    ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def world(ctx, rng):
    """Assertions among everything else, perhaps with one of them changed"""
    w = World(rng, asserts=1, rate=rng.choice([0.15, 0.5, 0.9]), blank=0.5, same_day=0.5,
              accounts=rng.sample(ACCOUNTS, rng.choice([2, 3, 5, 9])))
    if w.verdict is None:
        return
    done = [p for t in w.items if isinstance(t, Txn) for p in t.postings if p.bal is not None]
    if done and rng.random() < 0.5:
        p = rng.choice(done)
        d = F(1, 10 ** rng.choice([0, 1, 2, 3, 6, 10, 17, 20, 30])) * rng.choice([1, -1])
        k = rng.choice(["delta", "delta", "sign", "comm", "cents", "zero", "amount"])
        if rng.random() < 0.3:
            p = rng.choice([q for q in done if q.cost] or done)
        if k == "delta":
            p.bal.text = dec(p.bal.val + d)
        elif k == "zero":
            p.bal.text = "0"
        elif k == "amount" and p.amt is not None:
            p.bal.text = p.amt.text
        elif k == "sign":
            p.bal.text = dec(-p.bal.val)
        elif k == "cents":
            p.bal.text = dec(F(round(p.bal.val * 100), 100))
        else:
            p.bal.comm = rng.choice(w.g.comms)
        if w.judge() is None:
            return
    w.put(ctx)
    ctx.count["assertions"] += len(done)
    ctx.count["world_%s" % w.verdict] += 1
    if w.verdict == "ok":
        for _ in range(2):
            w.ask(ctx)
    else:
        w.refuse(ctx)
        if rng.random() < 0.5:
            rejected(ctx, ctx.run("check", "-f", "j.ledger"))
    if not w.autos_ and rng.random() < 0.3:
        v, led = verdict(w.items, check=False)
        r = ctx.run("reg", "-f", "j.ledger", "--no-balance-check")
        if v == "ok":
            accepted(ctx, r, "with --no-balance-check, a journal which balances")
            check_reports(ctx, led, args=("--no-balance-check",), which=(rng.choice(["flat", "reg"]),))
        elif v == "reject":
            rejected(ctx, r, "a journal which does not balance (%s)" % led.why)
    if done:
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
