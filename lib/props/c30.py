"""Payee rules and unknown accounts"""
import re

from ..journal import Amt, Directive, Gen, Posting
from ..util import accepted, check_reports, put, sample_of, verdict
from ..world import explore

ID = "C30"
QUICK, THOROUGH = 6000, 150000
WORLD = 0.45
RULE = ("Random journals with payee directives whose aliases are regular expressions over the descriptions used and not used, and account "
        "directives with payee rules, anywhere in the file; postings to accounts ending in unknown in any case, blank or "
        "not, virtual or not. Registers, balances, lists of payees and accounts and reports by @payee are compared with the reference. Journals in which several rules "
        "match are left out. Non-trivial: some rule applied; distinct by journal.")
DESCS = ["Shop one", "Shop two", "Big shop", "Rent", "rental car", "Café 21", "ATM 0042", "Grocer's", "Salary (Jan)", "a.b", "Ünal", "Rentals", "Shop one more", "ATM",
         "The a.b"]
RX = ["^Shop", "[Ss]hop", "one$", "^Rent$", "(?i)^rent", "Caf.", r"ATM \d+", "Grocer's", "^S.*y", r"a\.b", "two|one", "Ünal", "x{3}",
      "nothing"]


def case(ctx, rng, idx):
    g = Gen(rng, descs=rng.sample(DESCS, rng.randint(2, 6)), payee=0.25, notes=0.05, virtual=0.15, odd=0.05,
            days=rng.choice([3, 300]))
    items = g.journal(rng.choice([1, 3, 6, 10]))
    unknown = rng.choice(["Expenses:Unknown", "Unknown", "Assets:unknown", "X:UNKNOWN", "Gastos:Sub:Unknown"])
    for t in items:
        for p in t.postings:
            if rng.random() < 0.35:
                p.account = unknown
    k = 0
    for name in rng.sample(["Acme", "Shop two", "The landlord", "Bank", "Ünal & Co"], rng.randint(0, 3)):
        items.insert(rng.randrange(len(items) + 1), Directive("payee", name, [("alias", x) for x in rng.sample(
            RX, rng.randint(0, 2))]))
    for name in rng.sample(["Expenses:Food", "Expenses:Home", "Assets:Bank", g.accounts[0]], rng.randint(0, 3)):
        items.insert(rng.randrange(len(items) + 1), Directive("account", name, [("payee", x) for x in rng.sample(
            RX + ["Acme", "landlord", "^Bank$"], rng.randint(1, 3))]))
    v, led = verdict(items)
    if v != "ok":
        return
    put(ctx, items, rng)
    check_reports(ctx, led, which=(rng.choice(["flat", "tree"]), "reg"))
    r = ctx.run("payees", "-f", "j.ledger")
    accepted(ctx, r)
    want = {led.payees.get(x) for x in list(led.payees.names) + list(led.payees.alias)}
    ctx.expect(set(r.out.split("\n")[:-1]) == want, lambda: "payees: %r, expected %r" % (r.out, sorted(want)))
    name = rng.choice(sorted(want))
    words = [w for w in re.split(r"[^A-Za-z]+", name) if len(w) > 1]
    if words:
        w = rng.choice(words)
        check_reports(ctx, led, keep=lambda t, p: re.search("(?i)" + w, p.payee) is not None, args=["@" + w],
                      which=(rng.choice(["flat", "reg"]),))
    moved = sum(1 for t in led.txns for p in t.postings if p.src is not None and p.src.account.lower().endswith("unknown")
                and p.account.lower() != p.src.account.lower())
    renamed = sum(1 for t in led.txns if led.display_payee(t) != t.desc)
    ctx.count["moved_postings"] += moved
    ctx.count["renamed_transactions"] += renamed
    if moved or renamed:
        ctx.seen(ctx.files["j.ledger"], sample_of(ctx))


def world(ctx, rng):
    explore(ctx, rng, rules=1, payee=0.3, directives=0.5, split=0.1,
            kinds=["flat", "tree", "reg", "reg", "payees", "accounts"])
