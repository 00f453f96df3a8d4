"""Colour"""
import re

from ..journal import Amt, Gen, Posting, Txn
from ..util import accepted, put, sample_of, verdict
from ..world import World

ID = "C25"
QUICK, THOROUGH = 6000, 150000
SGR = re.compile("\x1b\\[[0-9;]*m")
WORLD = 0.4
RULE = ("Random journals, right and wrong, reported with and without --force-color (before and after the command line's other "
        "options): without the colour sequences both outputs have to be the same, byte by byte, with the same exit code. "
        "The last sequence resets the colour. Without the option there is no escape sequence. "
        "Non-trivial: the coloured report has colours; distinct by report.")


def colours(ctx, rng, args, plain):
    """The same command with colours says the same"""
    rest = args[1:]
    where = rng.randrange(2)
    col = ctx.run(args[0], *(["--force-color"] if where == 0 else []), "-f", "j.ledger", *rest,
                  *(["--force-color"] if where == 1 else []))
    ctx.expect("\x1b" not in plain.out + plain.err,
               lambda: "%r prints escape sequences: %r" % (args, (plain.out + plain.err)[:300]))
    ctx.expect(plain.rc == col.rc, lambda: "%r exits with %s, with colour with %s" % (args, plain.rc, col.rc))
    for a, b, w in ((plain.out, col.out, "output"), (plain.err, col.err, "error output")):
        s = SGR.sub("", b)
        ctx.expect(a == s, lambda: "%r: the %s is not the same with colour\n%s---\n%s" % (args, w, a[:900], s[:900]))
    n = len(SGR.findall(col.out))
    ctx.count["colour_sequences"] += n
    ctx.expect(n == 0 or SGR.findall(col.out)[-1] in ("\x1b[0m", "\x1b[m"),
               lambda: "the terminal is left in colour: %r" % col.out[-200:])
    return col, n


def compare(ctx, rng, args):
    plain = ctx.run(args[0], "-f", "j.ledger", *args[1:])
    colours(ctx, rng, args, plain)


def case(ctx, rng, idx):
    g = Gen(rng, multi=0.4, virtual=0.2, notes=0.1, odd=0.2)
    items = g.journal(rng.choice([1, 2, 4, 8, 20]))
    if rng.random() < 0.15:
        items.append(Txn(g.a_date(), "Wrong", [Posting("a", Amt("1", "EUR")), Posting("b", Amt("2", "EUR"))]))
    put(ctx, items, rng)
    cmd = rng.choice([["bal"], ["bal", "--flat"], ["reg"], ["bal", "--depth", "1"], ["bal", "--no-total"], ["prices"], ["accounts"],
                      ["payees"], ["commodities"], ["check"], ["bal", "-X", g.comms[0]], ["reg", "--real"], ["reg", "a"],
                      ["bal", "e"], ["bal", "--flat", "e"], ["reg"], ["bal", "--flat"]])
    args = list(cmd)
    rest = args[1:]
    plain = ctx.run(args[0], "-f", "j.ledger", *rest)
    col, n = colours(ctx, rng, args, plain)
    if n:
        ctx.seen(col.out, sample_of(ctx))


def world(ctx, rng):
    w = World(rng, split=0.1)
    if w.verdict is None:
        return
    w.put(ctx)
    for _ in range(2):
        c = w.command(["flat", "tree", "reg", "reg", "convert", "prices", "accounts", "payees", "commodities", "check"])
        compare(ctx, rng, c)
    ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
