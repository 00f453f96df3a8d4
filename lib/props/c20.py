"""accounts, payees, commodities"""
import re

from ..journal import Amt, Auto, Directive, Gen, Posting, Price, Txn, random_account, random_commodity, words
from ..util import accepted, put, sample_of, verdict
from ..world import explore

ID = "C20"
QUICK, THOROUGH = 6000, 150000
WORLD = 0.4
RULE = ("Random journals with directives (used and unused, with and without aliases), automated transactions which do and "
        "do not match, prices, costs, assertions, names of which nobody has thought (long, with punctuation), commodities which only an assertion names, payees with and without '|'; the lists of accounts, payees and "
        "commodities are compared with the sets of the reference: everything once, nothing else, sorted. "
        "Non-trivial: the list has at least two names; distinct by list.")


def case(ctx, rng, idx):
    g = Gen(rng, payee=0.4, cost=0.3, exchange=0.1, multi=0.4, notes=0.05, odd=0.4, virtual=0.2)
    items = g.journal(rng.choice([1, 2, 4, 8]))
    acc, pay, com = set(), set(), set()
    for t in items:
        pay.add(t.payee if t.payee is not None else t.desc)
        for p in t.postings:
            acc.add(p.account)
            for a in (p.amt, p.cost[1] if p.cost else None):
                if a is not None:
                    com.add(a.comm)
    if rng.random() < 0.15:
        # commodities which only an assertion or an assignment names
        t = rng.choice(items)
        new = rng.choice(["ONLY", "Only 1"])
        blank = any(p.amt is None for p in t.postings)
        amt = rng.choice([None, Amt("0", rng.choice(g.comms))]) if not blank else Amt("0", rng.choice(g.comms))
        t.postings.append(Posting("Fresh:Account", amt, bal=Amt(rng.choice(["0", "0.00"]), new)))
        acc.add("Fresh:Account")
        com |= {new} | ({amt.comm} if amt else set())
    if verdict(items)[0] != "ok":
        return
    for _ in range(rng.choice([0, 0, 1, 3])):
        a, b = rng.choice(g.comms + ["NEW", "other one"]), rng.choice(["EUR", "Priced", "X 1"])
        if a == b:
            continue
        items.insert(rng.randrange(len(items) + 1), Price(g.a_date(), a, Amt("2", b)))
        com |= {a, b}
    for what, names, pool in (("account", acc, ["Unused:Account", "Assets:Año", "Zzz", random_account(rng)]), ("payee", pay, ["Nobody", "Ünal", words(rng, 0.5), "Acme Inc."]),
                              ("commodity", com, ["Unused", "Q 1", "ZZZ", random_commodity(rng)])):
        for n in sorted(names) + pool:
            if rng.random() < 0.25:
                props = []
                if what != "payee" and rng.random() < 0.5:
                    props.append(("alias", "alias of %s" % n.replace(":", " ")))
                items.insert(rng.randrange(len(items) + 1), Directive(what, n, props))
                names.add(n)
    if rng.random() < 0.3:
        hit = rng.random() < 0.6
        q = re.match(r"\w+", rng.choice(g.accounts)).group() if hit else "nothing_like_this"
        items.insert(rng.randrange(len(items) + 1), Auto(q, [Posting("Auto:Target", Amt("2", "AUTO"), kind="V")]))
        acc.add("Auto:Target")
        com.add("AUTO")
    put(ctx, items, rng)
    for cmd, want in (("accounts", acc), ("payees", pay), ("commodities", com), ("currencies", com)):
        if cmd == "currencies" and rng.random() < 0.8:
            continue
        r = ctx.run(cmd, "-f", "j.ledger", *(["--no-balance-check"] if rng.random() < 0.1 else []))
        accepted(ctx, r)
        got = r.out.split("\n")[:-1]
        ctx.expect(got == sorted(set(got)), lambda: "%s: the names are not sorted or not different: %r" % (cmd, got))
        ctx.expect(set(got) == want, lambda: "%s: %r are missing, %r are too many" % (
            cmd, sorted(want - set(got)), sorted(set(got) - want)))
        ctx.count["names"] += len(got)
        if len(got) > 1:
            ctx.seen((cmd, got), sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, ask=3, directives=0.7, rules=0.5, autos=0.4, prices=0.6, cost=0.3, payee=0.4, split=0.15,
            kinds=["accounts", "payees", "commodities"])
