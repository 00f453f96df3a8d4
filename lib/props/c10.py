"""Determinism"""
from ..journal import Amt, Auto, Directive, Gen, Posting, Price, Raw, Txn
from ..util import put, sample_of, style
from ..world import World
from .c09 import full_journal
from .c24 import wrong

ID = "C10"
QUICK, THOROUGH = 1250, 31250
WORLD = 0.4
RULE = ("Random journals full of ambiguity (names differing in case, overlapping payee rules, accounts ending in unknown "
        "with several candidates, equivalent price paths, duplicate directives, many commodities, names which differ in a letter at the end, chains of up to dozens of prices), right and wrong; "
        "every command runs under several hash seeds chosen by the monitor, which are the only source of "
        "nondeterminism, and all executions have to print the same and exit the same. Non-trivial: there was output "
        "and the program asked for randomness; distinct by output.")


def case(ctx, rng, idx):
    g = Gen(rng, multi=0.5, comms=["EUR", "USD", "GBP", "BTC", "kg"][: rng.randint(1, 5)], days=rng.choice([3, 50]))
    items, extra = full_journal(rng, g)
    if rng.random() < 0.5:
        # case
        for t in items:
            for p in t.postings:
                if rng.random() < 0.3:
                    p.account = rng.choice([p.account.lower(), p.account.upper(), p.account.title()])
                if p.amt is not None and rng.random() < 0.2:
                    p.amt.comm = rng.choice([p.amt.comm.lower(), p.amt.comm.upper()])
            if rng.random() < 0.3:
                t.desc = rng.choice([t.desc.lower(), t.desc.upper()])
    if rng.random() < 0.5:
        for n in rng.sample(["Zeta", "alpha", "Mid", "beta", "Gamma"], 3):
            extra.append(Directive("payee", n, [("alias", rng.choice([".*", "^S", "o", "e", "a"])),
                                                ("alias", rng.choice(["t", "^R", "[A-F]"]))]))
    if rng.random() < 0.5:
        for n in rng.sample(["Expenses:Zeta", "Expenses:Alpha", "Assets:Mid", "Beta"], 3):
            extra.append(Directive("account", n, [("payee", rng.choice([".*", "^S", "o", "e", "a"]))]))
        for t in items:
            for p in t.postings:
                if rng.random() < 0.3:
                    p.account = rng.choice(["Expenses:Unknown", "Unknown"])
    if rng.random() < 0.3:
        extra += [Directive("commodity", "CUR%s" % x, [("alias", "k%s" % x), ("alias", "j%s" % x)]) for x in "abc"]
        extra.append(Directive("commodity", "CURa", [("alias", "kb")]))
    if rng.random() < 0.4 and len(g.comms) > 2:
        d = g.a_date()
        for a in g.comms:
            for b in g.comms:
                if a != b and rng.random() < 0.6:
                    extra.append(Price(d, a, g.amt(b, positive=True)))
    if rng.random() < 0.3:
        extra.append(Auto(rng.choice(["Assets", "Expenses", "@o"]), [Posting("Budget", Amt("0.5", ""), kind="V"),
                                                                     Posting("Budget:x", Amt("1", "EUR"), kind="V")]))
    if rng.random() < 0.08:
        items.append(Txn(g.a_date(), "Bad", [Posting("x", Amt("1", "EUR"))]))
    if rng.random() < 0.1:
        # an assertion which fails, in an account with several commodities
        t = Txn(g.a_date(), "Wrong", [Posting("Many", Amt(str(rng.randint(1, 99)), c)) for c in g.comms])
        t.postings += [Posting("Many", Amt("1", g.comms[0]), bal=Amt("-12345.67", g.comms[0])), Posting("Other")]
        items.append(t)
    if rng.random() < 0.1:
        extra.append(Raw(wrong(rng)[1] + "\n"))
    if rng.random() < 0.35:
        family(rng, g, items, extra)
    if rng.random() < 0.12:
        chain(rng, g, items, extra)
    order = items + extra
    rng.shuffle(order)
    put(ctx, order, rng)
    cmds = [["bal"], ["bal", "--flat"], ["bal", "-X", rng.choice(g.comms)], ["reg"], ["accounts"], ["payees"],
            ["commodities"], ["prices"], ["bal", "--flat", "--depth", "1"], ["reg", "Assets", "or", "@o"],
            ["bal", "-X", rng.choice(g.comms), "--flat"], ["check"], ["bal", "--depth", str(rng.randint(2, 9))],
            ["bal", "--flat", "--depth", str(rng.randint(2, 9))], ["reg", "-b", str(g.a_date()), "--real"]]
    runs = 6 if ctx.tier == "quick" else 12
    for c in rng.sample(cmds, 3):
        first = None
        for k in range(runs):
            r = ctx.run(*c, "-f", "j.ledger", seed=rng.randrange(1 << 40))
            o = (r.rc, r.sig, r.timeout, r.out, r.err)
            ctx.count["hash_seeds"] += 1
            if any(l.startswith("R ") for l in r.log):
                ctx.count["runs_which_used_the_seed"] += 1
            if first is None:
                first = o
                if r.out:
                    ctx.seen((c, r.out), sample_of(ctx))
            ctx.expect(o == first, lambda: "%r: two runs differ\n%s---\n%s" % (c, first, o))


def family(rng, g, items, extra):
    """Names which are all alike: one prefix or suffix, the same length, other punctuation, other accents"""
    base = rng.choice(["Acme", "Some long name of a thing", "Ñandú", "a", "Group:Of:Accounts:Very:Deep:Under:Each:Other"])
    ends = rng.choice([["", ".", "..", "...", ". ."], ["1", "2", "10", "11", "01"], list("abcdefghij"),
                       ["x", "X.", "x-", "-x", "_x"], ["á", "a", "à", "â", "ä"], [" one", " two", " one two", " two one"]])
    names = [base + e for e in ends]
    if rng.random() < 0.3:
        names = [e + base for e in ends]
    names = [n.strip() for n in names if n.strip()]
    for n in rng.sample(names, len(names)):
        comm = "".join(c for c in n if c.isalpha() and c.isascii()) + "_" + "xyzuvwpq"[names.index(n) % 8] * (1 + names.index(n) // 8)
        t = Txn(g.a_date(), n.replace(":", " "), [Posting("F:" + n, Amt(str(rng.randint(1, 9)), comm)), Posting("Eq")])
        if rng.random() < 0.3:
            t.postings[0].account = n
        if t.desc[0] in "-_(*!":
            t.desc = "x" + t.desc
        if t.postings[0].account[0] in "-(;0123456789":
            t.postings[0].account = "F:" + n
        items.append(t)


def chain(rng, g, items, extra):
    """A long chain of commodities, each quoted on several days"""
    n = rng.randint(6, 13)
    cs = ["Ch" + chr(97 + i) for i in range(n)]
    d = g.a_date()
    for a, b in zip(cs, cs[1:]):
        for _ in range(rng.choice([1, 1, 2])):
            extra.append(Price(d if rng.random() < 0.5 else g.a_date(), *rng.choice([(a, g.amt(b, positive=True)), (b, g.amt(a, positive=True))])))
    for _ in range(rng.randint(0, 3)):
        a, b = rng.sample(cs, 2)
        extra.append(Price(g.a_date(), a, g.amt(b, positive=True)))
    items.append(Txn(g.a_date(), "Chain", [Posting("Chain:" + c, Amt("7", c)) for c in cs] + [Posting("Eq")]))
    g.comms.append(cs[0])
    g.comms.append(cs[-1])


def world(ctx, rng):
    w = World(rng, prices=0.6, directives=0.5, rules=0.5, autos=0.4, split=0.2)
    if w.verdict is None:
        return
    w.put(ctx)
    for _ in range(2):
        c = w.command()
        first = None
        for k in range(6 if ctx.tier == "quick" else 12):
            r = ctx.run(*c, "-f", "j.ledger", seed=rng.randrange(1 << 40))
            o = (r.rc, r.sig, r.timeout, r.out, r.err)
            ctx.count["hash_seeds"] += 1
            if any(l.startswith("R ") for l in r.log):
                ctx.count["runs_which_used_the_seed"] += 1
            first = first or o
            ctx.expect(o == first, lambda: "%r: two runs differ\n%s---\n%s" % (c, first, o))
    ctx.seen(sorted(ctx.files.items()), sample_of(ctx))
