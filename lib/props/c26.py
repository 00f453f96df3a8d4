"""Virtual postings"""
import copy

from ..journal import Amt, Gen, Posting, Txn, dec, write
from ..model import F
from ..util import COMMANDS, accepted, check_reports, put, rejected, sample_of, style, verdict
from ..world import World

ID = "C26"
QUICK, THOROUGH = 4500, 112500
WORLD = 0.4
RULE = ("Random journals in which virtual postings, in parentheses and in brackets, are added anywhere to the transactions of a "
        "journal of real ones (with blanks, costs, exchanges, assertions in the same accounts): with --real every report "
        "has to be that of the original, byte by byte; without it the one of the reference. Imbalances of the real postings "
        "which the virtual ones would make up for, and bracketed ones which do not balance, have to be rejected. Non-trivial: there are virtual postings; distinct "
        "by journal.")


def case(ctx, rng, idx):
    g = Gen(rng, virtual=0, must=0, notes=0.05, blank=0.5, odd=0.1, days=rng.choice([5, 300]))
    items = g.journal(rng.choice([1, 2, 4, 8]))
    v, led = verdict(items)
    if v != "ok":
        return
    # assertions of real postings, which must not see the virtual ones
    for t in items:
        for p in t.postings:
            if p.amt is not None and rng.random() < 0.2:
                b = reference_balance(items, p)
                if b is not None:
                    p.bal = Amt(dec(b), p.amt.comm)
                    ctx.count["assertions"] += 1
    if verdict(items)[0] != "ok":
        return
    full = copy.deepcopy(items)
    n = 0
    for t in full:
        k = rng.choice([0, 1, 1, 2, 3])
        for _ in range(k):
            acc = rng.choice(g.accounts + ["Budget:Virtual"])
            c = rng.choice(g.comms)
            a = g.amt(c)
            n += 1
            if rng.random() < 0.5:
                p = Posting(acc, a, kind="V")
                g.maybe_cost(p)
                t.postings.insert(rng.randrange(len(t.postings) + 1), p)
            else:
                p = Posting(acc, a, kind="B")
                g.maybe_cost(p)
                oc, v = g.contribution(p)
                t.postings.insert(rng.randrange(len(t.postings) + 1), p)
                t.postings.insert(rng.randrange(len(t.postings) + 1),
                                  Posting(rng.choice(g.accounts), Amt(dec(-v), oc), kind="B"))
    if not n:
        return
    if rng.random() < 0.2:
        t = rng.choice(full)
        k = rng.random()
        c = rng.choice(g.comms)
        a = g.amt(c)
        if k < 0.5:
            # the virtual posting would make up for it
            t.postings = [Posting("x", a), Posting("y", Amt(dec(-a.val + 1), c)), Posting("z", Amt("-1", c), kind=rng.choice("VB"))]
            if t.postings[-1].kind == "B":
                t.postings.append(Posting("w", Amt("1", c), kind="B"))
        elif k < 0.8:
            t.postings = [Posting("x", a), Posting("y"), Posting("z", Amt("-1", c), kind="B"),
                          Posting("w", Amt(rng.choice(["1.0000001", "0.99", "-1", "2"]), c), kind=rng.choice("BV"))]
        else:
            t.postings = [Posting("x", a), Posting("y", None, kind="V"), Posting("z", Amt(dec(-a.val), c))]
        for p in t.postings:
            p.bal = None
        if any(p.bal for u in full for p in u.postings):
            for u in full:
                for p in u.postings:
                    p.bal = None
        if verdict(full)[0] != "reject":
            return
        put(ctx, full, rng)
        rejected(ctx, ctx.run(rng.choice(COMMANDS), "-f", "j.ledger"))
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
        return
    v, led = verdict(full)
    if v != "ok":
        return
    st = style(rng)
    ctx.write("real.ledger", write(items, st))
    ctx.write("j.ledger", write(full, st))
    for cmd in rng.sample([["bal"], ["bal", "--flat"], ["reg"], ["bal", "--depth", "2"], ["reg", "e"]], 2):
        r = ctx.run(cmd[0], "-f", "real.ledger", *cmd[1:])
        s = ctx.run(cmd[0], "-f", "j.ledger", "--real", *cmd[1:])
        accepted(ctx, r)
        accepted(ctx, s)
        ctx.expect(r.out == s.out, lambda: "%r --real is not the report without the virtual postings\n%s---\n%s" % (
            cmd, r.out[:900], s.out[:900]))
    check_reports(ctx, led, which=(rng.choice(["flat", "tree"]), "reg"))
    ctx.count["virtual_postings"] += n
    ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def reference_balance(items, target):
    """The balance the reference sees right after a posting, or None"""
    from ..model import Ledger, Reject, Unclear

    class Probe(Exception):
        pass

    class Spy:
        """Stands for an asserted amount, finds out what it is compared with"""
        comm = target.amt.comm
        text = "0"

        @property
        def val(self):
            return self

        def __ne__(self, other):
            raise ProbeAt(other)

        def __eq__(self, other):
            raise ProbeAt(other)

        def __rsub__(self, other):
            raise ProbeAt(other)

    class ProbeAt(Exception):
        def __init__(self, v):
            self.v = v
    old = target.bal
    target.bal = Spy()
    try:
        Ledger(items)
    except ProbeAt as p:
        return p.v
    except (Reject, Unclear):
        return None
    finally:
        target.bal = old
    return None


def world(ctx, rng):
    """With --real a world is the one which has no virtual postings"""
    auto = rng.random() < 0.3
    w = World(rng, virtual=0.5, must=0.4, asserts=0.6, autos=1.0 if auto else 0.0, real_autos=0.2 if auto else 0)
    if w.verdict is None:
        return
    w.put(ctx)
    if w.verdict == "reject":
        w.refuse(ctx)
        return
    if auto:
        for _ in range(2):
            w.ask(ctx, rng.choice(["flat", "tree", "reg"]), real=0.6)
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
        return
    bare = copy.deepcopy(w.items)
    n = 0
    for t in bare:
        if isinstance(t, Txn):
            k = len(t.postings)
            t.postings = [p for p in t.postings if p.kind == "R"]
            n += k - len(t.postings)
    ctx.write("real.ledger", write(bare))
    ctx.count["virtual_postings"] += n
    for _ in range(2):
        c = w.command(["flat", "tree", "reg"], real=0, query=0)
        r = ctx.run(*c, "-f", "real.ledger")
        s = ctx.run(*c, "--real", "-f", "j.ledger")
        accepted(ctx, r)
        accepted(ctx, s)
        ctx.expect(r.out == s.out, lambda: "%r --real is not the report without the virtual postings\n%s---\n%s" % (
            c, r.out[:900], s.out[:900]))
    w.ask(ctx, rng.choice(["flat", "tree", "reg"]), real=0)
    if n:
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))
