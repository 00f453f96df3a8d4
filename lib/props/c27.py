"""Errors say where they are"""
import os
import re
from datetime import timedelta

from ..journal import Amt, Gen, Include, Posting, Raw, Txn, dec, write
from ..model import F, show
from ..util import COMMANDS, accepted, rejected, sample_of, style, verdict
from ..world import World
from .c09 import full_journal
from .c24 import wrong

ID = "C27"
QUICK, THOROUGH = 18000, 450000
RULE = ("Correct journals, in one file or split into several by includes, with one error whose place is known: a malformed "
        "amount, posting, date, price or directive from the catalogue of C24, a transaction which does not balance, with two "
        "blanks, a wrong assertion or unbalanced virtual postings. The diagnostic has to name the file and a line of the item, or the date and "
        "description of the transaction. Non-trivial: every case; distinct by files.")


def semantic(rng, g):
    d = g.a_date()
    desc = "%s %s" % (rng.choice(["Odd one", "Señal", "Strange & co", "x"]), rng.randrange(10 ** 6))
    k = rng.choice(["unbalanced", "unbalanced", "blanks", "assertion", "virtual", "assign"])
    c = rng.choice(g.comms)
    a = g.amt(c)
    before, shown = [], []
    if k == "unbalanced":
        b = -a.val + rng.choice([1, -1, F(1, 100), F(1, 10 ** 12)])
        ps = [Posting("Odd:a", a), Posting("Odd:b", Amt(dec(b), c))]
        if a.val and (b > 0) == (a.val > 0) and rng.random() < 0.5:
            ps.append(Posting("Odd:c", Amt("0", c)))
    elif k == "blanks":
        ps = [Posting("Odd:a", a), Posting("Odd:b"), Posting("Odd:c")]
        rng.shuffle(ps)
    elif k == "assertion":
        # the account may have a past, in this and other commodities
        have = {}
        for i in range(rng.choice([0, 0, 1, 2, 4])):
            x = g.amt(rng.choice(g.comms))
            have[x.comm] = have.get(x.comm, F(0)) + x.val
            before.append(Txn(d - timedelta(days=rng.randint(1, 40)), "Before", [Posting("Odd:a", x), Posting("Odd:b")]))
        have[c] = have.get(c, F(0)) + a.val
        said = have[c] + rng.choice([1, -1, F(1, 100), a.val or 2, 10 ** 6, F(-123456, 100)])
        ps = [Posting("Odd:a", a, bal=Amt(dec(said), c)), Posting("Odd:b")]
        shown = [("asserted amount", said, c), ("difference", have[c] - said, c)]
        shown += [("balance", v, x) for x, v in have.items()]
    elif k == "virtual":
        ps = [Posting("Odd:a", a), Posting("Odd:b"), Posting("Odd:v", Amt("3", c), kind="B")]
    else:
        ps = [Posting("Odd:a", bal=Amt("5", c)), Posting("Odd:b", Amt("7", c))]
    return Txn(d, desc, ps, status=rng.choice(["", "*", "!"])), before, shown


def case(ctx, rng, idx):
    g = Gen(rng, notes=0.1, odd=0.1, max_postings=4)
    items, extra = full_journal(rng, g, rng.choice([0, 1, 2, 4, 8, 30]))
    if rng.random() < 0.4:
        w = World(rng, huge=0, asserts=0, wrong_autos=0)
        if w.verdict != "ok":
            return
        items = w.reorder()
    elif verdict(items + extra)[0] != "ok":
        return
    else:
        items += extra
        rng.shuffle(items)
    syntax = rng.random() < 0.65
    if syntax:
        what, bad, _ = wrong(rng)
        if "Wrong:c" in bad and re.match(r"[^\n]*\n\s+a ", bad):
            return   # that one is two blanks
    else:
        t, past, shown = semantic(rng, g)
        if verdict(past + [t])[0] != "reject" or verdict(past)[0] != "ok":
            return
        items += past
    # files: main, and perhaps a chain of includes down to the one with the error
    depth = rng.choice([0, 0, 0, 1, 1, 2, 3])
    names = ["main.ledger"] + [rng.choice(["", "sub/", "a b/"]) + "f%d.ledger" % i for i in range(1, depth + 1)]
    full = ["main.ledger"]
    for n in names[1:]:
        full.append(os.path.normpath(os.path.join(os.path.dirname(full[-1]), n)))
    st = style(rng, crlf=rng.random() < 0.05)
    line = None
    for i, f in enumerate(full):
        mine = [x for x in items if i == depth or rng.random() < 1.0 / (1 + len(full))]
        items = [x for x in items if not any(x is y for y in mine)]
        at = rng.randrange(len(mine) + 1)
        gap = "\n" * rng.choice([0, 0, 1, 5, 60])
        if rng.random() < 0.1:
            gap = rng.choice(["\n", "; x\n"]) * rng.choice([250, 1100, 3000])
        before = write(mine[:at], st)
        before = (gap + before if rng.random() < 0.5 else before + gap) + "; x\n"
        after = "\n; y\n\n" + write(mine[at:], st)
        if i < depth:
            ctx.write(f, before + "include " + names[i + 1] + "\n" + after)
        else:
            text = bad if syntax else write([t], st).rstrip("\n")
            line = before.count("\n") + 1, before.count("\n") + 1 + text.count("\n")
            ctx.write(f, before + text + "\n" + after)
    cmd = rng.choice(COMMANDS)
    r = ctx.run(cmd, "-f", "main.ledger")
    rejected(ctx, r, "a journal with an error")
    err = r.err + (r.out if cmd == "check" else "")
    base = os.path.basename(full[-1])
    if syntax:
        found = [int(x) for x in re.findall(re.escape(base) + r"\"?:(\d+)", err)]
        ctx.count["syntax_errors"] += 1
        ctx.expect(found, lambda: "the diagnostic of %r does not say the file and line (%s:%d)\n%s" % (
            bad, full[-1], line[0], err[:800]))
        ctx.expect(all(line[0] <= x <= line[1] for x in found),
                   lambda: "the error is in %s, lines %d to %d, the diagnostic says %r\n%s" % (
                       full[-1], line[0], line[1], found, err[:800]))
    else:
        ctx.count["wrong_transactions"] += 1
        ctx.expect(t.date.isoformat() in err and t.desc in err,
                   lambda: "the diagnostic does not show the transaction %s %s\n%s" % (t.date, t.desc, err[:800]))
        for what, v, c in shown:
            if not v:
                continue
            x = show(c, v)
            ctx.count["amounts_of_failed_assertions"] += 1
            ctx.expect(re.search(r"(?<![\d.-])%s(?!\w)" % re.escape(x), err),
                       lambda: "the diagnostic of a failed assertion does not show the %s, %s\n%s" % (
                           what, x, err[:800]))
    ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
