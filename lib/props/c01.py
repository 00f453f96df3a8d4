"""Double entry: a journal is accepted iff every transaction balances"""
import copy

from ..journal import COMMS, ODD_COMMS, Amt, Gen, Posting, Txn, dec
from ..model import F
from ..util import COMMANDS, accepted, put, rejected, sample_of, verdict
from ..world import World

ID = "C01"
QUICK, THOROUGH = 5600, 140000
WORLD = 0.45
RULE = ("Random balanced journals (1 to 400 transactions, up to 150 postings, costs, implicit exchanges, amounts of up "
        "to 40 digits) and one-place mutations of them (an amount off by as little as 1e-30, a sign, a commodity, a "
        "cost, a posting dropped or repeated, a second blank); the exact reference decides which have to be rejected. "
        "Non-trivial: the case has at least one real transaction; distinct by journal text.")


def mutate(rng, items, g):
    items = copy.deepcopy(items)
    t = rng.choice([x for x in items if isinstance(x, Txn)])
    if rng.random() < 0.3:
        t = items[-1] if isinstance(items[-1], Txn) else t
    ps = [p for p in t.postings if p.amt is not None]
    k = rng.choice(["tiny", "tiny", "delta", "sign", "drop", "dup", "comm", "blank", "cost", "costkind", "unblank",
                    "kind", "kinds", "delcost", "twice", "blanks"])
    if k == "blanks":
        # nothing but blanks, perhaps with virtual postings
        t.postings = [p for p in t.postings if p.kind != "R" and rng.random() < 0.5]
        for _ in range(rng.choice([1, 2, 2, 3, 12])):
            t.postings.append(Posting(rng.choice(g.accounts)))
        return k, items
    if k == "unblank":
        blanks = [p for p in t.postings if p.amt is None]
        if blanks:
            t.postings.remove(blanks[0])
        return k, items
    if k == "blank":
        for _ in range(rng.randint(1, 2)):
            b = Posting(rng.choice(g.accounts))
            b.kind = rng.choice("RRRVB")
            t.postings.insert(rng.randrange(len(t.postings) + 1), b)
        return k, items
    if not ps:
        return k, items
    p = rng.choice(ps)
    if k == "twice":
        # an amount and its cost with the other sign weigh the same
        for p in ps:
            if p.cost and not p.bal:
                p.amt.text = dec(-p.amt.val)
                p.cost = (p.cost[0], Amt(dec(-p.cost[1].val), p.cost[1].comm))
    elif k == "tiny":
        d = F(1, 10 ** rng.choice([1, 2, 3, 6, 9, 12, 16, 18, 20, 30]))
        p.amt.text = dec(p.amt.val + rng.choice([d, -d]))
    elif k == "delta":
        p.amt.text = dec(p.amt.val + rng.choice([1, -1, 100, p.amt.val]))
    elif k == "sign":
        p.amt.text = dec(-p.amt.val)
    elif k == "drop":
        t.postings.remove(p)
    elif k == "dup":
        t.postings.insert(rng.randrange(len(t.postings) + 1), copy.deepcopy(p))
    elif k == "comm":
        p.amt.comm = rng.choice(g.comms)
    elif k == "kind":
        p.kind = rng.choice("RVB")
    elif k == "kinds":
        # no real postings at all: brackets have to balance on their own
        for q in t.postings:
            if q.amt is not None:
                q.kind = "B" if rng.random() < 0.9 else "V"
                if not rng.randrange(3):
                    q.amt.text = dec(q.amt.val * rng.choice([1, 1, 2, -1]))
        if rng.random() < 0.9:
            t.postings = [q for q in t.postings if q.amt is not None]
        for q in t.postings:
            q.bal = None
    elif k == "cost":
        oc = [c for c in g.comms if c != p.amt.comm]
        if oc:
            p.cost = (rng.choice(["@", "@@"]), g.amt(rng.choice(oc), positive=rng.random() < 0.7))
    elif k == "costkind" and p.cost:
        p.cost = ("@@" if p.cost[0] == "@" else "@", p.cost[1])
    elif k == "delcost":
        p.cost = None
    return k, items


def case(ctx, rng, idx):
    kw = {}
    shape = rng.random()
    if shape < 0.1:
        kw = dict(max_postings=rng.choice([40, 150]), blank=0.2, big=0.2, fine=0.3)
    elif shape < 0.3:
        kw = dict(multi=0.9, cost=0.4, exchange=0.3)
    elif shape < 0.4:
        kw = dict(multi=0.0, cost=0.0, exchange=0.0, virtual=0, must=0, blank=0.1)
    g = Gen(rng, **kw)
    n = rng.choice([1, 1, 2, 3, 5, 8])
    if rng.random() < 0.02:
        n = 400 if ctx.tier == "thorough" else 120
    items = g.journal(n)
    if rng.random() < 0.12:
        # several commodities left over, of any sign, also of the same one or all but one of it
        pool = COMMS + ODD_COMMS
        cs = rng.sample(pool, rng.randint(2, 9))
        signs = [rng.choice([1, -1]) for _ in cs]
        if rng.random() < 0.7:
            signs = [signs[0]] * len(cs)
            if rng.random() < 0.7:
                signs[rng.randrange(len(cs))] *= -1
        ps = [Posting(rng.choice(g.accounts), Amt(dec(s * g.number(positive=True)[0]), c), kind="R") for c, s in zip(cs, signs)]
        if rng.random() < 0.3:
            for p in ps:
                p.kind = "B"
            ps.append(Posting(rng.choice(g.accounts), Amt("0", cs[0])))
        t = Txn(g.a_date(), "Many", ps)
        items.insert(rng.randrange(len(items) + 1), t)
    kind = "none"
    if rng.random() < 0.7:
        kind, items = mutate(rng, items, g)
    v, led = verdict(items)
    if v is None:
        return
    ctx.count["mutation_" + kind] += 1
    put(ctx, items, rng)
    cmd = rng.choice(COMMANDS)
    args = [cmd]
    if rng.random() < 0.15:
        args.append("--no-balance-check")  # says nothing about the transactions themselves
    r = ctx.run(*args, "-f", "j.ledger")
    if v == "ok":
        accepted(ctx, r, "a balanced journal")
    else:
        rejected(ctx, r, "a journal which does not balance (%s)" % led.why)
    if rng.random() < 0.5:
        r = ctx.run("check", "-f", "j.ledger")
        if v == "ok":
            accepted(ctx, r, "a balanced journal")
            ctx.expect("OK" in r.out, "check does not say OK")
        else:
            rejected(ctx, r, "a journal which does not balance (%s)" % led.why)
    ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def world(ctx, rng):
    """Everything at once, with one place changed: the reference decides"""
    w = World(rng, asserts=0.2, cost=0.25, exchange=0.15, multi=0.5)
    if w.verdict is None:
        return
    kind = "none"
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        kind, w.items = mutate(rng, w.items, w.g)
    if w.judge() is None:
        return
    w.put(ctx, split=rng.random() < 0.1)
    ctx.count["mutation_" + kind] += 1
    ctx.count["world_%s" % w.verdict] += 1
    for cmd in rng.sample(COMMANDS, 2):
        r = ctx.run(cmd, "-f", "j.ledger")
        if w.verdict == "ok":
            accepted(ctx, r, "a balanced journal")
        else:
            rejected(ctx, r, "a wrong journal (%s)" % w.led.why)
    ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
