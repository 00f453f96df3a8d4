"""Malformed journals are rejected"""
from ..journal import Gen, Raw, Style, write
from ..util import COMMANDS, accepted, rejected, sample_of, style, verdict
from ..world import World
from .c09 import full_journal

ID = "C24"
QUICK, THOROUGH = 20000, 500000
RULE = ("A correct journal with one malformed place, from a catalogue of malformed amounts, costs, assertions, prices, dates, "
        "postings and directives with random numbers, commodities and layout, put anywhere in the journal; the other "
        "amount of the transaction is left out, so that nothing else can be wrong. The same journal with the well-formed "
        "twin of that place has to be accepted. Non-trivial: every case; distinct by the malformed text.")

# N and M are numbers, C and D commodities. Each is followed by what it would be if it were correct.
AMOUNTS = ["N,000 C", "N,5 C", "N.2.3 C", "N C C", "N C M", "--N C", "NeM C", "N C @", "N C @ D", "N C =", "N C = C",
           "N @ M D", "C", "N..M C", "+N C", "$N C", "- N C", "C - N", "-C N", "N C @@@ M D", "(N C)", "(N * M C)",
           "N C (x)", "N C D", "N C {M D}", "N C [2020-01-01]", "ten C", "0xN C", "N_000 C", "\uff11\uff12 C",
           "\u0661\u0662 C", "N-M C", "N - M C", "N C @ M D M", "N C = N C M", "N EMR", "N 000 C",
           "N C !", "N C @ (M D)", "-N -C", "N- C", "N C @@", "N C @@ D", "N.M.N C", "N C @ M.M.M D", "N C = M..M C",
           "N C @ M,5 D", "N C @@ M,000 D", "N C = M,5 C", "N C M C", "C N C", "C N D", "C N N", "N C @ M D D",
           "N C @ D M D", "N C @ --M D", "N C @@ - M D", "N C = --M C", "N C = - M C", "N C # x", "N C x y", "-", "- C", ".",
           ". C", "-. C", 'N "C', '"C N', 'N C"', 'N C @ M "D', 'N C @@ "D M', 'N C = M "C', 'N "C  ', 'N "C x', 'C" N', 'N C"D"',
           "N C @ M D @ M D", "N C @@ M D @@ M D", "N C @ M D @@ N D", "N C = N C = N C", "N C = M C = N C",
           "N C @ M D = N C @ M D", "N C = N C @ M D = N C", "N C @ M D @ N D = N C", 'N "C" "D"', 'N "C"x', '"C" "D" N', 'N ""C"']
HEADS = ["2020-02-30 x", "2020-13-01 x", "2020-00-10 x", "2020-1-32 x", "2020/01-02 x", "2020-01/02 x", "2020.01-02 x",
         "2020-01 x", "20200101 x", "2020-01-01x", "2020-01-01", "2019-02-29 x", "1900-02-29 x", "2020-04-31 x",
         "2020-001-01 x", "2020-01-001 x", "2020-01-00 x", "2020-06-31 x", "2020-01-01=2020-02-30 x", "2020-01-01= x",
         "2020-01-01=2020-01 x", "2020-1-1-1 x", "2020--01-01 x"]
POSTINGS = ["1 C  a", "(a  N C", "[a  N C", "(a]  N C", "[a)  N C", "(a  N C)", "a N C", "(a) N C x y", "[a  N C]", "(a:b]  N C",
            "[a b)  N C"]
LINES = ["foo", "account", "accounts a", "commodity", "commodity A B", "payees x", "tag", "include", "includes x",
         "year 2020", "Y 2020", "D 1 EUR", "bucket a", "assert x", "~ monthly", "account a\n    foo b", "N C",
         "commodity AAX\n    foo b", "payee a\n    foo b", "tag a\n    foo b", "commodity AAX\n    payee b",
         "tag a\n    alias b", "payee a\n    check b", "x 2020-01-01 y", "- 2020-01-01 y", "2020", "a: b", "(a)", "\"x\"",
         "alias x=y", "end", "apply tag x"]
PRICES = ["P", "P D", "P D C", "P D C N", "P D C E", "P D N E", "P D C N E x", "P D C N E N", "P D C N,5 E",
          "P D C N.2.3 E", "P D C --N E", "P D C ten E", "P 2020-02-30 C N E", "P 2020-13-01 C N E", "P 2020/01-02 C N E",
          "Price D C N E", "P D 25:00:00 C N E", "P 2020-01 C N E", "P 2019-02-29 C N E", "p D C N E",
          "P 2020-04-31 C N E", "P D C E N", "P D 12:00 C N E",
          'P D "C N E', 'P D C N "E', 'P D C" N E', 'P D C N E"', 'P D "C" N "E']
# amounts of automated postings
EXPRS = ["(amount * )", "(amount) C", "(amount", "(amount))", "(amount) (amount)", "x (amount)", "-(amount)", "-amount",
         "amount", "amount * N", "(N C) C", "()", "( )", "(amount ** N)", "C (amount)", "abs(amount)", "(* N)",
         "(amount +)", "(amount) N C", "N C (amount)", "(amount * N) @ M D x", "-(amount * N)", "- (amount)", "(amount]",
         "(amount N)", "((amount)", "(amount,)", "(amount N C)", "(foo(amount))", "(abs amount)", "+(amount)", "N * amount",
         "(amount) * N", "(amount).N", "(abs(amount) - )", "(/ N)", "--(amount)", "(amount * N", "C amount", "",
         "; x", "= N C", "(abs(amount, N))", "(amount, N)"]
QUERIES = ["expr (amount > N", "expr 'amount >'", "(Food", "@(shop", "%[a", "/[z/", "expr 'amount >> N'", "expr 'amount > N M'",
           "*", "food and *", "@*", "food or (", "", "expr (amount > N))and(", "expr 'has_tag(/x/, N)'", "expr 'amount and'",
           "expr 'and amount'", "expr 'foo(amount) > N'", "expr 'account =~ /*/'", "%+", "/food", "expr 'account =~ /x'",
           "expr \"amount > N and\"", "expr 'tag(/(/) =~ /x/'", "expr 'amount = N'", "expr 'amount > N or or amount < M'"]
VALID = ("(N C)", "(N * M C)")


def fill(rng, text, comms):
    num = lambda: rng.choice([str(rng.randint(1, 9)), str(rng.randint(10, 99999)), "%d.%02d" % (rng.randint(0, 999),
                                                                                                rng.randint(0, 99))])
    integer = lambda: str(rng.randint(1, 999))
    c, d = rng.sample(["EUR", "USD", "GBP", "Acme", "kg", "€"], 2)
    if rng.random() < 0.2:
        c = '"my fund"'
    whole = any(x in text for x in ("N,", "N.", "N_", "0xN", "NeM", "N 0", ".M", ",5", ",0", "EMR", "N-", "$N", "M.M"))
    out = ""
    i = 0
    while i < len(text):
        ch = text[i]
        alone = (i == 0 or not text[i - 1].isalpha()) and (i + 1 == len(text) or not text[i + 1].isalpha())
        if ch in "NM" and (alone or text[max(0, i - 2):i] == "0x" or text[i:i + 2] in ("Ne", "MR") or text[max(0, i - 1):i] == "e"):
            out += integer() if whole else num()
        elif ch == "C" and alone:
            out += c
        elif ch == "D" and alone:
            out += d
        else:
            out += ch
        i += 1
    return out


def wrong(rng):
    """What is malformed and a journal item with it, and the item without"""
    ind = rng.choice(["    ", "  ", "\t", " "])
    gap = rng.choice(["  ", "   ", "\t", "      "])
    k = rng.random()
    good = "2020-01-01 x\n%sWrong:a%s10 EUR\n%sWrong:b" % (ind, gap, ind)
    if k < 0.03:
        t = rng.choice(QUERIES)
        head = "=" + rng.choice(["", " "]) + fill(rng, t.replace("'", '"'), None) + rng.choice(["", "", "  "])
        tail = ["%s(Wrong:a)%s2" % (ind, gap), ind + "; :tag:", "%s(Wrong:a)%s(amount)\n%s(Wrong:b)%s1 EUR" % (ind, gap, ind, gap)]
        return t, head + "\n" + rng.choice(tail), "= Nothing:like:this\n%s(Wrong:a)%s(amount * 2)" % (ind, gap)
    if k < 0.1:
        # in an automated transaction, whether it applies to something or not
        t = rng.choice(EXPRS) if rng.random() < 0.6 else rng.choice([a for a in AMOUNTS if a not in VALID])
        a = fill(rng, t, None)
        head = "= " + rng.choice(["Nothing:like:this", "^Nothing$", "@nobody at all", "/./", "e", "expr account =~ /z{5}/"])
        lines = [ind + rng.choice(["(Wrong:a)", "(Wrong:a)", "[Wrong:a]", "Wrong:a"]) + gap + a]
        if rng.random() < 0.3:
            lines.insert(rng.choice([0, 1]), ind + "(Wrong:b)" + gap + rng.choice(["1", "(amount * 2)", "2 EUR"]))
        if rng.random() < 0.2 and "(amount" != t[:7]:
            lines[-1] += "  ; note"
        return a, head + "\n" + "\n".join(lines), "= Nothing:like:this\n%s(Wrong:a)%s(amount * 2)" % (ind, gap)
    if k < 0.5:
        t = rng.choice(AMOUNTS)
        a = fill(rng, t, None)
        acc = rng.choice(["Wrong:a", "Wrong:a", "(Wrong:a)"])
        lines = ["%s%s%s%s" % (ind, acc, gap, a), ind + "Wrong:b"]
        if acc[0] == "(":
            lines = ["%s%s%s%s" % (ind, acc, gap, a), ind + "Wrong:c" + gap + "1 EUR", ind + "Wrong:b"]
        if rng.random() < 0.3:
            lines[0] += rng.choice(["  ; note", " ; :tag:", "   "])
        if rng.random() < 0.3:
            lines = lines[1:] + lines[:1]
        return a, "2020-01-01 x\n" + "\n".join(lines), good
    if k < 0.65:
        t = rng.choice(HEADS)
        if t == "2020-01-01":
            return t, t + "\n" + good.split("\n", 1)[1], good
        return t, t + rng.choice(["", " y", " | z", "  ; note"]) + "\n" + good.split("\n", 1)[1], good
    if k < 0.67:
        # the account is missing or is a number
        p = fill(rng, rng.choice(["N C", "N", "N C  M C", "12:a", "2nd", "2nd account", "12:a  N C", "N C ; x", "-"]), None)
        if p == "-":
            p = str(rng.randrange(10 ** 9))
        lines = ["%sWrong:a%s10 EUR" % (ind, gap)] + ["%sWrong:b%s-10 EUR" % (ind, gap)] * (rng.random() < 0.5)
        at = rng.randrange(len(lines) + 1)
        return p, "2020-01-01 x\n" + "\n".join(lines[:at] + [ind + p] + lines[at:]), good
    if k < 0.75:
        p = fill(rng, rng.choice(POSTINGS), None)
        if p.startswith(("(", "[")) and not p.startswith("(a) ") and rng.random() < 0.5:
            # with another virtual posting which would make up for it
            n = p.split("  ")[1].rstrip(")]")
            twin = rng.choice(["[Wrong:v]", "(Wrong:v)"]) + gap + ("-" + n if n[0] != "-" else n[1:])
            lines = [ind + p, ind + twin, "%sWrong:a%s10 EUR" % (ind, gap), ind + "Wrong:b"]
            rng.shuffle(lines)
            return p, "2020-01-01 x\n" + "\n".join(lines), good
        if p.startswith("(a) "):
            return p, "2020-01-01 x\n%s%s\n%sWrong:a%s10 EUR\n%sWrong:b" % (ind, p, ind, gap, ind), good
        other = "%sWrong:b\n%sWrong:c" % (ind, ind) if p.startswith("a ") else ind + "Wrong:b"
        return p, "2020-01-01 x\n%s%s\n%s" % (ind, p, other), good
    if k < 0.88:
        t = rng.choice(LINES)
        if "foo b" in t and rng.random() < 0.6:
            t = t.replace("foo b", rng.choice(["nonsense", "nonsense b", "aliases x", "notes x", "al x", "symbol $", "not a note",
                                               "1 b", "eur 2", "alias=x", "defaults", "x"]))
        return t, fill(rng, t, None), good
    t = rng.choice(PRICES)
    d = rng.choice(["2020-01-01", "2020/02/03", "2020.03.04", "2020-1-2"])
    c, e = rng.sample(["EUR", "USD", "GBP", "Acme"], 2)
    n = str(rng.randint(1, 999)) if any(x in t for x in "N, N. --N".split()) else "%d.%d" % (rng.randint(0, 9), rng.randint(1, 99))
    words = []
    for w in t.split(" "):
        w = {"D": d, "C": c, "E": e, "N": n}.get(w, w)
        if w[:2] in ("N,", "N.") or w == "--N":
            w = w.replace("N", str(rng.randint(1, 999)))
        words.append(w)
    return t, " ".join(words), "P %s %s %s %s" % (d, c, n, e)


def case(ctx, rng, idx):
    g = Gen(rng, notes=0.1, odd=0.1, max_postings=4)
    items, extra = full_journal(rng, g, rng.choice([0, 1, 2, 4, 8]))
    twin = True
    if rng.random() < 0.4:
        w = World(rng, huge=0)
        if w.verdict != "ok":
            return
        items = w.reorder()
        twin = not w.autos_  # they could apply to the twin
    elif verdict(items + extra)[0] != "ok":
        return
    else:
        items += extra
        rng.shuffle(items)
    what, bad, good = wrong(rng)
    at = rng.randrange(len(items) + 1)
    state = rng.getstate()
    st = style(rng, crlf=rng.random() < 0.05)

    def text(x):
        # the item in the middle is written as it is, between comments: nothing of it belongs to its neighbours
        return write(items[:at], st) + "\n; here\n" + x + "\n; end\n\n" + write(items[at:], st)
    ctx.write("j.ledger", text(bad))
    cmd = rng.choice(COMMANDS)
    opts = ["--no-balance-check"] if rng.random() < 0.1 else []
    r = ctx.run(cmd, "-f", "j.ledger", *opts)
    rejected(ctx, r, "a journal with %r" % bad)

    ctx.seen(bad, sample_of(ctx))
    if twin and rng.random() < 0.15:
        ctx.write("good.ledger", text(good))
        accepted(ctx, ctx.run(cmd, "-f", "good.ledger"))
