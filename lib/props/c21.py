"""How the file is written does not matter"""
from ..journal import Amt, Auto, Directive, Gen, Posting, Raw, Style, Txn, write
from ..util import accepted, rejected, sample_of, verdict
from ..world import World
from .c09 import full_journal
from .c12 import tagged

ID = "C21"
QUICK, THOROUGH = 3000, 75000
WORLD = 0.5
RULE = ("Random journals written in the plain style of the documentation and in a random one: indentation, tabs, width of "
        "the gap, trailing space, date separators, leading and trailing zeros, commodity before or after, with or "
        "without space and quotes, comments and blank lines between items, comments of postings in the same line or "
        "below, CRLF, no final newline. Every report has to be the same, byte by byte. Non-trivial: the texts differ; "
        "distinct by the text in the random style.")


def case(ctx, rng, idx):
    g = Gen(rng, notes=0.2, days=rng.choice([3, 300]), odd=0.25, payee=0)
    items, extra = full_journal(rng, g, rng.choice([1, 2, 4, 8]))
    tagged(rng, items)
    items += extra
    if rng.random() < 0.15:
        items.append(Auto("Assets", [Posting("Budget", Amt("2", ""), kind="V"),
                                     Posting("Budget", expr="(amount * 2 + amount)", kind="V")]))
    rng.shuffle(items)
    v, _ = verdict([x for x in items if not isinstance(x, Auto)])
    if v is None:
        return
    ctx.write("plain.ledger", write(items))
    w = rng.choice([0.3, 0.7, 1.0])
    st = Style(rng, w, crlf=rng.random() < 0.3, final_newline=rng.random() < 0.6)
    ctx.write("wild.ledger", write(items, st))
    cmds = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"],
            ["reg", "%" + rng.choice(["food", "Trip", "project"])], ["reg", "Assets"], ["bal", "-X", g.comms[0]]]
    for c in rng.sample(cmds, 3):
        r = ctx.run(*c, "-f", "plain.ledger")
        s = ctx.run(*c, "-f", "wild.ledger")
        ctx.count["crlf" if st.crlf else "lf"] += 1
        ctx.count["no_final_newline"] += not st.final_newline
        if v == "ok":
            accepted(ctx, r)
            accepted(ctx, s, "the same journal written in another way")
        ctx.expect((r.rc, r.out) == (s.rc, s.out), lambda: "%r depends on how the file is written\n%s---\n%s" % (
            c, r.out[:900], s.out[:900]))
        ctx.count["reports_compared"] += 1
    if ctx.files["plain.ledger"] != ctx.files["wild.ledger"]:
        ctx.seen(ctx.files["wild.ledger"], sample_of(ctx))


def world(ctx, rng):
    """A world written in two ways"""
    w = World(rng, tags=0.7)
    if w.verdict is None:
        return
    ctx.write("plain.ledger", write(w.items))
    st = Style(rng, rng.choice([0.3, 0.7, 1.0]), crlf=rng.random() < 0.3, final_newline=rng.random() < 0.6)
    ctx.write("wild.ledger", write(w.items, st))
    for _ in range(3):
        c = w.command()
        r = ctx.run(*c, "-f", "plain.ledger")
        s = ctx.run(*c, "-f", "wild.ledger")
        if w.verdict == "ok":
            accepted(ctx, r)
            accepted(ctx, s, "the same journal written in another way")
        ctx.expect((r.rc == 0, c[0] == "check" or r.out) == (s.rc == 0, c[0] == "check" or s.out),
                   lambda: "%r depends on how the file is written\n%s---\n%s" % (c, r.out[:900], s.out[:900]))
        ctx.count["reports_compared"] += 1
    ctx.seen(ctx.files["wild.ledger"], sample_of(ctx))
