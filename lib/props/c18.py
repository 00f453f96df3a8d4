"""Included files"""
import os

from ..journal import Amt, Auto, Directive, Gen, Include, Posting, Price, Raw, Txn, write
from ..util import COMMANDS, accepted, rejected, sample_of, style, verdict
from ..world import World
from .c09 import full_journal

ID = "C18"
QUICK, THOROUGH = 3000, 75000
WORLD = 0.5
RULE = ("Random journals (some of hundreds of transactions) cut at random into up to twenty files, in nested directories, joined by include directives with "
        "plain, ./ and ../ paths, globs over files and directories, run from another working directory too; every "
        "report has to be that of the single file, byte by byte. Loops of one to five files, spelled in different ways "
        "or through symbolic links, includes of missing files and wrong transactions or lines in an included file have "
        "to be rejected; a file included twice without a loop counts twice. Non-trivial: there are at least two "
        "files; distinct by the contents of all of them.")


class Splitter:
    def __init__(self, rng):
        self.rng, self.files, self.n, self.globs, self.depth = rng, {}, 0, 0, 0

    def name(self):
        self.n += 1
        return self.rng.choice(["f%d.ledger", "año %d.ledger", "2020-%02d.dat", "part %d"]) % self.n

    def put(self, path, items, level=0):
        """Writes `items` to `path`, perhaps through other files"""
        r = self.rng
        out, i = [], 0
        d = os.path.dirname(path)
        self.depth = max(self.depth, level)
        while i < len(items):
            k = r.random()
            if level < 4 and self.n < 20 and k < 0.35:
                n = r.randint(1, max(1, len(items) - i))
                chunk = items[i:i + n]
                i += n
                if r.random() < 0.3 and len(chunk) > 1:
                    # a glob: the files come in alphabetical order
                    self.n += 1
                    self.globs += 1
                    g = "g%d" % self.n
                    j = 0
                    parts = []
                    while j < len(chunk):
                        m = r.randint(1, len(chunk) - j)
                        parts.append(chunk[j:j + m])
                        j += m
                    kind = r.choice(["dir", "prefix", "question", "twolevel"])
                    for x, p in enumerate(parts):
                        letter = "abcdefghijklmnopqrstuvwxyz"[x % 26] * (1 + x // 26)
                        if kind in ("dir", "twolevel"):
                            rel = "%s/%s.%s" % (g, letter, g) if kind == "dir" else "%s/%s/x.ledger" % (g, letter)
                        else:
                            rel = "%s-%s.ledger" % (g, letter)
                        self.put(os.path.normpath(os.path.join(d, rel)), p, level + 1)
                    if kind == "dir":
                        self.files[os.path.normpath(os.path.join(d, g, "other.txt"))] = "this is not read\n"
                        pat = "%s/*.%s" % (g, g)
                    elif kind == "twolevel":
                        pat = "%s/*/x.ledger" % g
                    elif kind == "question" and len(parts) <= 26:
                        pat = "%s-?.ledger" % g
                    else:
                        pat = "%s-*.ledger" % g
                    out.append(Include(pat))
                else:
                    name = self.name()
                    up = []
                    e = d
                    while r.random() < 0.3:
                        up.append(r.choice(["sub", "older files", "x"]))
                    rel = "/".join(up + [name])
                    if e and r.random() < 0.3:
                        rel = "../" + rel
                    elif r.random() < 0.2:
                        rel = "./" + rel
                    target = os.path.normpath(os.path.join(e, rel))
                    self.put(target, chunk, level + 1)
                    out.append(Include(rel))
            else:
                out.append(items[i])
                i += 1
        self.files[path] = write(out, style(r, crlf=r.random() < 0.05, final_newline=r.random() < 0.8))


def loop(ctx, rng, g):
    n = rng.choice([1, 1, 2, 2, 3, 5])
    dirs = [rng.choice(["", "", "a/", "b/c/"]) for _ in range(n)]
    names = ["%sl%d.ledger" % (dirs[i], i) for i in range(n)]
    for i in range(n):
        nxt = names[(i + 1) % n]
        rel = os.path.relpath(nxt, dirs[i] or ".")
        k = rng.random()
        if k < 0.2:
            rel = "./" + rel
        elif k < 0.35 and dirs[i]:
            rel = "../" * dirs[i].count("/") + nxt
        elif k < 0.5 and dirs[(i + 1) % n]:
            rel = os.path.dirname(rel) + "/../" + os.path.relpath(nxt, os.path.dirname(os.path.dirname(nxt)) or ".")
        elif k < 0.6:
            rel = rel[:-6] + "*"
        items = g.journal(1)
        items.insert(rng.randrange(2), Include(rel))
        ctx.write(names[i], write(items, style(rng)))
    if n > 1 and dirs[0] == "" and rng.random() < 0.2:
        os.symlink(os.path.join(ctx.dir, names[0]), os.path.join(ctx.dir, "link.ledger"))
        names[0] = "link.ledger"
    r = ctx.run(rng.choice(COMMANDS), "-f", rng.choice([names[0], "./" + names[0], os.path.join(ctx.dir, names[0])]),
                timeout=20)
    rejected(ctx, r, "files which include each other")
    ctx.count["loops"] += 1
    ctx.seen((sorted(ctx.files.items()),), sample_of(ctx))


def case(ctx, rng, idx):
    g = Gen(rng, notes=0.1, days=rng.choice([3, 300]), odd=0.1)
    if rng.random() < 0.15:
        return loop(ctx, rng, g)
    large = rng.random() < 0.03
    items, extra = full_journal(rng, g, rng.choice([60, 420, 420]) if large else rng.choice([2, 4, 8, 15]))
    if large or rng.random() < 0.05:
        for _ in range(rng.choice([10, 40, 80])):
            a, b = rng.sample(["EUR", "USD", "GBP", "kg"], 2)
            extra.append(Price(g.a_date(), a, g.amt(b, positive=True)))
    v, _ = verdict(items + extra)
    if v != "ok":
        return
    items += extra
    if rng.random() < 0.25:
        items.append(Auto(rng.choice(["Assets", "Expenses", "@Shop"]), [Posting("Budget", Amt("2", ""), kind="V")]))
    rng.shuffle(items)
    k = rng.random()
    bad = None
    if k < 0.1:
        bad = Txn(g.a_date(), "Bad", [Posting("x", Amt("1", "EUR")), Posting("y", Amt("2", "EUR"))])
    elif k < 0.15:
        bad = Raw("this is not a journal")
    elif k < 0.2:
        bad = Include(rng.choice(["missing.ledger", "no/such.ledger", "../missing"]))
    elif k < 0.25:
        # the same file twice, without a loop
        t = g.journal(2)
        for x in t:
            x.payee = None
        if verdict(t)[0] != "ok":
            return
        ctx.write("one.ledger", write(items + t + t))
        ctx.write("twice.ledger", write(t))
        ctx.write("mid.ledger", write([Include("twice.ledger")]))
        ctx.write("main.ledger", write(items + [Include("twice.ledger"), Include(rng.choice(["mid.ledger",
                                                                                          "twice.ledger"]))]))
        for c in (["reg"], ["bal"]):
            r, s = ctx.run(*c, "-f", "one.ledger"), ctx.run(*c, "-f", "main.ledger")
            accepted(ctx, r)
            accepted(ctx, s, "a file included twice")
            ctx.expect(r.out == s.out, lambda: "a file included twice does not count twice: %r" % s.out)
        ctx.count["included_twice"] += 1
        return
    if bad is not None:
        items.insert(rng.randrange(len(items) + 1), bad)
    sp = Splitter(rng)
    root = rng.choice(["main.ledger", "main.ledger", "deep/er/main.ledger"])
    sp.put(root, items)
    for f, text in sp.files.items():
        ctx.write(f, text)
    where = rng.choice([root, root, "./" + root, os.path.join(ctx.dir, root)])
    cwd = None
    if rng.random() < 0.3:
        cwd = os.path.join(ctx.dir, "elsewhere")
        os.makedirs(cwd)
        where = rng.choice([os.path.join(ctx.dir, root), "../" + root])
    ctx.count["files"] += len(sp.files)
    ctx.count["globs"] += sp.globs
    ctx.count["deepest_%d" % sp.depth] += 1
    if bad is not None:
        rejected(ctx, ctx.run(rng.choice(COMMANDS), "-f", where, cwd=cwd), "something wrong in an included file")
        ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
        return
    ctx.write("one.ledger", write(items))
    cmds = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"],
            ["bal", "-X", g.comms[0]]]
    for c in rng.sample(cmds, 3):
        r = ctx.run(*c, "-f", "one.ledger")
        s = ctx.run(*c, "-f", where, cwd=cwd)
        accepted(ctx, r)
        accepted(ctx, s, "the same journal in several files")
        ctx.count["reports_compared"] += 1
        ctx.expect(r.out == s.out, lambda: "%r of the single file and of the included ones differ\n%s---\n%s" % (
            c, r.out[:900], s.out[:900]))
        opened = [l for l in s.log if l.startswith("O ")]
        ctx.count["files_opened"] += len(opened)
    if len(sp.files) > 1:
        ctx.seen(sorted(ctx.files.items()), sample_of(ctx))


def world(ctx, rng):
    """A world in one file and in several; duplicate directives count as in one file"""
    w = World(rng, rules=0.5, directives=0.7, prices=0.6, autos=0.4, asserts=0.4)
    if w.verdict is None:
        return
    if rng.random() < 0.5:
        # a second directive for a name, with other aliases or rules
        ds = [d for d in w.items if isinstance(d, Directive) and d.what != "tag"]
        for d in rng.sample(ds, min(len(ds), 2)):
            props = [("alias", "later%s" % "abc"[rng.randrange(3)])] if rng.random() < 0.5 else list(d.props)
            w.items.insert(rng.randrange(len(w.items) + 1), Directive(d.what, rng.choice([d.name, d.name.lower()]), props))
            ctx.count["duplicate_directives"] += 1
    sp = Splitter(rng)
    root = rng.choice(["main.ledger", "main.ledger", "deep/er/main.ledger"])
    sp.put(root, w.items)
    for f, text in sp.files.items():
        ctx.write(f, text)
    ctx.write("one.ledger", write(w.items))
    ctx.count["files"] += len(sp.files)
    ctx.count["globs"] += sp.globs
    for _ in range(3):
        c = w.command()
        r = ctx.run(*c, "-f", "one.ledger")
        s = ctx.run(*c, "-f", root)
        ctx.count["reports_compared"] += 1
        if c[0] == "check":
            ctx.expect(r.ok == s.ok, lambda: "check says %s of the single file, %s of the included ones" % (r.ok, s.ok))
            continue
        ctx.expect((r.ok, r.out) == (s.ok, s.out), lambda: "%r of the single file and of the included ones differ\n%s---\n%s" % (
            c, r.out[:900], s.out[:900]))
    if len(sp.files) > 1:
        ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
