"""Reports only read"""
import os

from ..journal import Amt, Gen, Include, Posting, Txn, write
from ..util import COMMANDS, sample_of, style
from ..world import World
from .c09 import full_journal
from .c18 import Splitter
from .c23 import damage

ID = "C28"
QUICK, THOROUGH = 9000, 225000
RULE = ("Random journals, right, wrong and damaged, in one or several files, with and without init file, among decoy files (other "
        "journals, init files, backups), run with every command and its options. The preloaded monitor reports every file "
        "opened and every call which would change the file system, open a socket or start a process (and refuses them); "
        "the tree of files is compared before and after. Every file which should be read has to be among those opened, so that the monitor is "
        "known to see. Non-trivial: at least one file was seen to be opened; distinct by files and arguments.")


def snapshot(root):
    out = {}
    for base, dirs, names in os.walk(root):
        for n in sorted(dirs + names):
            p = os.path.join(base, n)
            s = os.lstat(p)
            data = open(p, "rb").read() if os.path.isfile(p) else None
            out[os.path.relpath(p, root)] = (s.st_mode, s.st_size, s.st_mtime_ns, s.st_ino, data)
    return out


def case(ctx, rng, idx):
    g = Gen(rng, notes=0.1, odd=0.1)
    items, extra = full_journal(rng, g, rng.choice([1, 2, 5]))
    items += extra
    if rng.random() < 0.5:
        w = World(rng, huge=0.04)
        items = w.items or items
    if rng.random() < 0.2:
        items.append(Txn(g.a_date(), "Wrong", [Posting("a", Amt("1", "EUR")), Posting("b", Amt("2", "EUR"))]))
    rng.shuffle(items)
    sp = Splitter(rng)
    sp.put("main.ledger", items)
    damaged = rng.random() < 0.2
    for f, text in sp.files.items():
        if damaged and rng.random() < 0.5:
            text = damage(rng, text)
            if "include" in text or text.count("(") > 200:
                text = ""
        ctx.write(f, text)
    for d in ("other.ledger", "main.ledger~", ".main.ledger.swp", "prices.db", "main.ledger.bak", "main", "ledgerrc"):
        if rng.random() < 0.6:
            ctx.write(d, "2020-01-01 decoy\n a  1 EUR\n b\n")
    home = os.path.join(ctx.dir, "home")
    os.makedirs(home)
    allowed = {f for f in sp.files if not f.endswith("other.txt")}
    args = []
    k = rng.random()
    if k < 0.2:
        ctx.write("rc", "--real\n")
        args = ["--init-file", "rc"]
        allowed.add("rc")
    elif k < 0.4:
        ctx.write("home/.ledgerrc", "--real\n")
        allowed.add("home/.ledgerrc")
    elif k < 0.5:
        ctx.write(".ledgerrc", "--real\n")
        allowed.add(".ledgerrc")
    cmd = rng.choice(COMMANDS + ["bal", "reg"])
    if cmd in ("bal", "reg"):
        args += rng.choice([[], [], ["-X", g.comms[0]] if cmd == "bal" else [], ["--depth", "2"], ["-b", "2019-06"], ["--force-color"], ["Assets"],
                            ["expr", "amount > 0"]])
    if cmd == "check":
        args = []
        allowed -= {"rc"}
    before = snapshot(ctx.dir)
    r = ctx.run(cmd, "-f", "main.ledger", *args, home=home)
    after = snapshot(ctx.dir)
    ctx.expect(before == after, lambda: "%r changed files: %r" % (
        r.cmd[1:], sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))))
    opened = set()
    for ev in r.log:
        kind, _, rest = ev.partition(" ")
        if kind == "O":
            flags, _, path = rest.partition(" ")
            ctx.count["opens"] += 1
            path = os.path.normpath(os.path.join(ctx.dir, path))
            ctx.expect(int(flags) == 0 or path in ("/dev/null", "/dev/tty"),
                       lambda: "%r opens %s for writing" % (r.cmd[1:], path))
            if path.startswith(ctx.dir + "/"):
                rel = os.path.relpath(path, ctx.dir)
                opened.add(rel)
                if os.path.isdir(path) or not os.path.exists(path) and damaged:
                    continue
                ctx.expect(rel in allowed or os.path.basename(rel) == ".ledgerrc" and not os.path.exists(path),
                           lambda: "%r reads %s" % (r.cmd[1:], rel))
            else:
                ctx.expect(path.startswith(("/etc/", "/proc/", "/sys/", "/usr/", "/lib")) or path in ("/dev/null", "/dev/urandom"),
                           lambda: "%r reads %s" % (r.cmd[1:], path))
        elif kind in ("W", "X"):
            ctx.fail("%r: %s" % (r.cmd[1:], ev))
        else:
            ctx.count["event_" + kind] += 1
    ctx.expect("main.ledger" in opened, "the monitor did not see the journal being read")
    if r.ok:
        miss = {f for f in sp.files if not f.endswith("other.txt")} - opened
        if not damaged:
            ctx.expect(not miss, lambda: "a report without reading %r" % sorted(miss))
    ctx.count["files_read"] += len(opened)
    ctx.seen((sorted(ctx.files.items()), r.cmd[1:]), sample_of(ctx))
