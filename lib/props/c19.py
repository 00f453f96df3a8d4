"""Tags"""
from ..expr import ExprGen, QueryGen
from ..journal import Amt, Auto, Directive, Gen, Posting, prose, words
from ..model import F, Ledger
from ..util import check_reports, put, sample_of
from ..world import World, some_tags

ID = "C19"
QUICK, THOROUGH = 9000, 225000
WORLD = 0.4
RULE = ("Random journals full of comments, short and long: one or several tags (also of random names with punctuation) in :a:b: form, 'name: value', plain notes and things which "
        "look like tags but are not, in the first line of the transaction, below it, next to a posting and below it, "
        "also of elided, filled, virtual and automated postings; reports by %tag, has_tag, tag(name) == and =~ and any "
        "show the postings the reference says. Non-trivial: the condition holds for some postings only; distinct by "
        "condition and journal.")
NAMES = ["food", "Trip", "project", "big spender", "año", "Tag_1", "food2", "TRIP", "x"]
VALUES = ["x", "some value", "Rome", "12", "año nuevo", "a, b (c)", "rome"]
PLAIN = ["nothing here", "see invoice 12", "100 EUR = 3", "ojo", ":food: is not the end", ":a:b: this is not valid",
         "one: two: three", "@ (x)", "food", "trip"]


def note(rng, tags=NAMES, values=VALUES):
    k = rng.random()
    if k < 0.35:
        names = rng.sample(tags, min(len(tags), rng.choice([1, 1, 2, 3])))
        return rng.choice(["", "", "text ", "two words ", prose(rng) + " "]) + ":" + ":".join(names) + ":"
    if k < 0.7:
        return "%s:%s%s" % (rng.choice(tags), rng.choice([" ", " ", "", "  "]),
                           rng.choice(values + [""]))
    return rng.choice(PLAIN + [prose(rng)])


def only_tags(eg, rng, depth, names=NAMES, values=VALUES):
    """A condition about tags"""
    from ..expr import AND, CMP, E, OR
    import re
    if depth > 0 and rng.random() < 0.5:
        a, b = only_tags(eg, rng, depth - 1, names, values), only_tags(eg, rng, depth - 1, names, values)
        k = rng.choice(["and", "or", "not", "any"])
        if k == "not":
            return E("(not (" + a.text + "))", lambda p, t, l: not a.fn(p, t, l))
        if k == "any" and (eg.nest or "any(" not in a.text):
            return E("any(" + a.text + ")", lambda p, t, l: any(a.fn(q, t, l) for q in t.postings))
        k = "or" if k == "any" else k
        lev = AND if k == "and" else OR
        f = (lambda p, t, l: a.fn(p, t, l) and b.fn(p, t, l)) if k == "and" else (
            lambda p, t, l: a.fn(p, t, l) or b.fn(p, t, l))
        return E(a.at(lev + 1) + " " + k + " " + b.at(lev + 1), f, lev)
    k = rng.choice(["has", "re", "eq"])
    if k == "has":
        rx = eg.fragment(names)
        c = re.compile(rx)
        return E("has_tag(/%s/)" % rx, lambda p, t, l: any(c.search(n) for n, _ in p.tags))
    if k == "re":
        rx, ry = eg.fragment(names), eg.fragment(values)
        c, d = re.compile(rx), re.compile(ry)

        def f(p, t, l):
            for n, v in p.tags:
                if c.search(n):
                    return v is not None and bool(d.search(v))
            return False
        return E("tag(/%s/) =~ /%s/" % (rx, ry), f, CMP)
    n0, v0 = rng.choice(names), rng.choice(values)

    def g(p, t, l):
        for n, v in p.tags:
            if n == n0:
                return v == v0
        return False
    return E("tag('%s') == '%s'" % (n0, v0), g, CMP)


def case(ctx, rng, idx):
    g = Gen(rng, notes=0, virtual=0.2, must=0.1, payee=0.2, blank=0.6, big=0.01)
    items = g.journal(rng.choice([1, 2, 4, 7]))
    rate = rng.choice([0.15, 0.35, 0.7])
    names, values = some_tags(rng, NAMES, VALUES)
    for t in items:
        if rng.random() < rate:
            t.head = note(rng, names, values)
        while rng.random() < rate:
            t.notes.append(note(rng, names, values))
        for p in t.postings:
            while rng.random() < rate:
                p.notes.append(note(rng, names, values))
    autos = []
    if rng.random() < 0.25:
        a = Auto("Assets", [Posting("Budget", Amt("2", ""), kind="V")])
        while rng.random() < 0.6:
            a.notes.append(note(rng, names, values))
        autos.append(a)
    everything = items + autos + ([Directive("tag", rng.choice(names))] if rng.random() < 0.2 else [])
    try:
        led = Ledger(everything, match=lambda q, p, t, l, amount=False: "assets" in p.account.lower())
    except Exception:
        return
    put(ctx, everything, rng)
    eg = ExprGen(rng, g.accounts, g.descs, g.comms, names, values)
    for _ in range(2):
        if rng.random() < 0.5:
            import re
            rx = eg.fragment(names)
            if rng.random() < 0.3 and "[" not in rx:
                rx = rx.swapcase()
            c = re.compile(rx, re.I)
            args = ["%" + rx]
            cond = lambda p, t, l: any(c.search(n) for n, _ in p.tags)
        else:
            e = only_tags(eg, rng, 2, names, values)
            args, cond = ["expr", e.text], e.fn
        keep = lambda t, p: cond(p, t, led)
        check_reports(ctx, led, keep=keep, args=args, which=(rng.choice(["flat", "reg", "reg"]),))
        n = sum(1 for _ in led.all())
        k = sum(1 for _ in led.all(keep))
        ctx.count["conditions_true"] += k
        ctx.count["conditions_false"] += n - k
        if 0 < k < n:
            ctx.seen((args, ctx.files["j.ledger"]), sample_of(ctx))
    ctx.count["tags"] += sum(len(p.tags) for _, p in led.all())


def world(ctx, rng):
    w = World(rng, tags=1, autos=0.5, blank=0.6, virtual=0.2)
    if w.verdict != "ok":
        return
    w.put(ctx)
    for _ in range(2):
        w.ask(ctx, rng.choice(["flat", "reg", "reg"]), query=1, exprs=0.5, about="tags")
    ctx.seen((ctx.trace[-1]["args"], ctx.files["j.ledger"]), sample_of(ctx))
