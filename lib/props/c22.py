"""The init file"""
import os

from ..journal import Gen, Txn
from ..util import accepted, put, rejected, sample_of, verdict
from ..world import World

ID = "C22"
QUICK, THOROUGH = 9000, 225000
RULE = ("Random sets of options (--file, --depth, --begin, --end, --real, --flat, --no-total, --no-balance-check, "
        "--force-color) shared out between the command line (long, short, = and attached forms) and an init file given "
        "with --init-file, ~/.ledgerrc or ./.ledgerrc, among comments and blank lines, with conflicting values; the "
        "output has to be that of giving the effective options in the command line without init file. Init files with "
        "anything else are rejected. Non-trivial: the init file changes or tries to change the report; distinct by "
        "init file and arguments.")

SHORT = {"--file": "-f", "--depth": "-d", "--begin": "-b", "--end": "-e"}


def value(rng, opt, items):
    if opt == "--depth":
        return str(rng.randint(1, 3))
    if opt in ("--begin", "--end"):
        d = rng.choice(items).date
        return rng.choice([d.isoformat(), "%d/%02d" % (d.year, d.month), "%d-%02d" % (d.year, d.month)])
    if opt == "--file":
        return rng.choice(["j.ledger", "k.ledger", "with space.ledger", "./My Journal-2.LEDGER", "My Journal-2.LEDGER", '"q"'])
    return None


def spell(rng, opt, v):
    if v is None:
        return [opt]
    k = rng.random()
    if opt in SHORT and k < 0.3:
        return [SHORT[opt], v]
    if opt in SHORT and k < 0.4:
        return [SHORT[opt] + v]
    if k < 0.6:
        return [opt + "=" + v]
    return [opt, v]


def rc(rng, opts):
    lines = []
    for o, v in opts:
        while rng.random() < 0.3:
            lines.append(rng.choice(["; comment", "# --real", "! --depth 1", "% x", "", "   ", "  ; indented comment",
                                     ";--flat"]))
        lines.append(o + ((" " * rng.randint(1, 3)) + v if v is not None else "") + rng.choice(["", "", " "]))
    while rng.random() < 0.2:
        lines.append(rng.choice(["; end", ""]))
    return "\n".join(lines) + rng.choice(["\n", ""])


def case(ctx, rng, idx):
    g = Gen(rng, virtual=0.4, must=0.2, notes=0.02, days=60, big=0.01)
    items, other = g.journal(rng.choice([2, 4, 8])), g.journal(2)
    if verdict(items)[0] != "ok" or verdict(other)[0] != "ok":
        return
    put(ctx, items[:1], None, "with space.ledger")
    if rng.random() < 0.4:
        w = World(rng, virtual=0.4, asserts=0)
        if w.verdict != "ok":
            return
        w.put(ctx)
        items = w.led.txns
    else:
        put(ctx, items, None, "j.ledger")
    put(ctx, other, None, "k.ledger")
    put(ctx, other[:1], None, "My Journal-2.LEDGER")
    put(ctx, items[:1] if isinstance(items[0], Txn) else other, None, '"q"')
    cmd = rng.choice(["bal", "bal", "reg", "reg", "accounts"])
    names = ["--depth", "--begin", "--end", "--real", "--no-balance-check", "--force-color"]
    if cmd == "bal":
        names += ["--flat", "--no-total"]
    chosen = [(o, value(rng, o, items)) for o in names if rng.random() < 0.35]
    infile, online = [], []
    for o, v in chosen:
        k = rng.random()
        if k < 0.45:
            infile.append((o, v))
        elif k < 0.65:
            online.append((o, v))
        else:  # both; the command line wins
            infile.append((o, value(rng, o, items)))
            online.append((o, v))
    f = value(rng, "--file", items)
    if rng.random() < 0.4:
        infile.append(("--file", f))
        effective_file = f
        if rng.random() < 0.5:
            f2 = value(rng, "--file", items)
            online.append(("--file", f2))
            effective_file = f2
    else:
        online.append(("--file", f))
        effective_file = f
    rng.shuffle(infile)
    rng.shuffle(online)
    text = rc(rng, infile)
    kind = rng.choice(["option", "option", "home", "cwd"])
    home = os.path.join(ctx.dir, "home dir")
    empty = os.path.join(ctx.dir, "empty home")
    os.makedirs(home)
    os.makedirs(empty)
    decoy = "--depth 1\n--begin 2200-01-01\n--file nowhere.ledger\n"
    args = []
    bad = rng.random() < 0.12
    if bad:
        junk = rng.choice(["this is not an option", "-d 1", "- --depth 1", "depth 1", "--no-such-option", "file j.ledger",
                           "--depth many", "--begin not-a-date"])
        if cmd == "accounts" or junk.split()[0] in [o for o, _ in online]:
            junk = "depth 1"
        lines = text.split("\n")
        lines.insert(rng.randrange(len(lines) + 1), junk)
        if junk.startswith("--"):
            lines = [l for l in lines if l == junk or not l.startswith(junk.split()[0])]
            online = [(o, v) for o, v in online if o != junk.split()[0]]
        text = "\n".join(lines) + "\n"
    if kind == "option":
        name = rng.choice(["my rc", "rc", "sub/.ledgerrc"])
        ctx.write(name, text)
        args += ["--init-file", name] if rng.random() < 0.7 else ["--init-file=" + name]
        if rng.random() < 0.5:
            ctx.write("home dir/.ledgerrc", decoy)
        if rng.random() < 0.5:
            ctx.write(".ledgerrc", decoy)
    elif kind == "home":
        ctx.write("home dir/.ledgerrc", text)
        if rng.random() < 0.5:
            ctx.write(".ledgerrc", decoy)
    else:
        ctx.write(".ledgerrc", text)
        home = empty
    rest = [x for o, v in online for x in spell(rng, o, v)]
    pos = rng.choice([0, len(rest)])
    full = [cmd] + (args + rest if pos == 0 else rest + args)
    r = ctx.run(*full, home=home)
    ctx.count["init_file_" + kind] += 1
    if bad:
        rejected(ctx, r, "an init file with %r" % junk)
        ctx.seen((text, full), sample_of(ctx))
        return
    eff = dict(infile)
    eff.update(dict(online))
    eff["--file"] = effective_file
    plain = [cmd] + [x for o, v in sorted(eff.items()) for x in ([o] if v is None else [o, v])]
    ctx.write("empty rc", "")
    s = ctx.run(*plain, "--init-file", "empty rc", home=empty)
    accepted(ctx, s)
    accepted(ctx, r, "an init file")
    ctx.expect(r.out == s.out, lambda: "with the init file\n%s\n%r is not %r\n%s---\n%s" % (
        text, full, plain, r.out[:700], s.out[:700]))
    ctx.count["options_from_file"] += len(infile)
    ctx.count["options_overridden"] += len(set(o for o, _ in infile) & set(o for o, _ in online))
    if infile:
        ctx.seen((text, full), sample_of(ctx))
