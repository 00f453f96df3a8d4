"""Fail-stop: a report or an explanation, never a hang, a crash or half a report"""
import os
import re
from datetime import date

from ..core import load_known
from ..journal import Amt, Auto, Directive, Gen, Posting, Price, Raw, Style, Txn, write
from ..util import COMMANDS, sample_of
from ..world import World
from .c09 import full_journal
from .c12 import tagged

ID = "C23"
QUICK, THOROUGH = 24000, 600000
BUILD_THOROUGH = "dev"
RULE = ("Rich journals damaged in every way: cut at every offset (each offset of a fixed journal with all the syntax is "
        "one case), bytes, characters, words and lines deleted, repeated, swapped, inserted or replaced by others of the "
        "grammar, random bytes, invalid UTF-8, NUL, very long lines, deep accounts, empty files, directories, missing "
        "files, unknown options and queries. The monitor asserts that the execution ends by itself, without signal, "
        "with exit code 0 and no panic message, or with another one, a diagnostic and no report; and that all the "
        "commands agree whether the file is fine. In the thorough tier part of the runs use the AddressSanitizer "
        "build. Non-trivial: every damaged input; distinct by input.")

SEED_JOURNAL = """; comment: x
account Assets:Cash
    alias cash
    note something
    payee ^Shop
commodity EUR
    alias €
    format 1.000,00
commodity "Fund 2020"
payee Grocer
    alias ^Groc
tag food
    check x
P 2020/01/02 EUR 1.2 USD
P 2020-01-03 12:30:00 "Fund 2020" 30.55 EUR

2020-01-01=2020-01-05 * ("12 a") Shop | Grocery  ; :food:
    ; key: value
    Assets:Cash  10.50 EUR @ 1.2 USD = 10.50 EUR ; note
    (Virtual:One)  -3 "Fund 2020"
    [Virtual:Two]  5 €
    [Virtual:Three]  -5 EUR
    Income:Salary

2020.1.2 20:15:00 ! Exchange
    cash  -1 "Fund 2020" @@ 31.2 EUR
    Assets:Bank account  $ 3
    Expenses:Unknown

2020/02/03 Assign
    Assets:New  = 100 EUR
    Equity

= /Income/ and @Groc
    ; :auto:
    (Budget)  0.5
    (Budget:Sub)  (abs(amount) * 2 + 1 - 3 / 4)
= expr "account =~ /Cash/ and amount > 0 or has_tag(/food/)"
    (Budget)  1 EUR
"""

WORDS = ["2020-01-01", "P", "=", "@", "@@", "include", "account", "payee", "alias", "commodity", "tag", "(", ")", "[", "]",
         ";", "\"", "-", "1", "1.5", ".", "..", "EUR", "$", "  ", "\t", "\n", "\r\n", "\n    ", "expr", "/", "and", "or",
         "not", "any", "abs", "amount", "2020-13-45", "2020-02-30", "|", "*", "!", "%", "#", ":", "::", ": :", "\0", "é",
         "\u00a0", "\u2028", "0", "-0", "1e5", "1,000.00", "--", "has_tag", "note", "9" * 400, "a" * 3000, "1/0", "\\",
         "{", "}", "<", ">", "=~", "==", "default", "2020/1-1", "99999999-01-01", "12345-01-01", "0000-00-00", "'"]


ODD = [chr(x) for x in (0, 1, 7, 8, 9, 11, 12, 13, 27, 127, 0x85, 0xA0, 0xAD, 0x301, 0x2028, 0x200B, 0x202E, 0xFEFF, 0x1F600)]


def observe(ctx, r, what, cmd):
    ctx.expect(not r.timeout, lambda: "%s: %r does not end" % (what, r.cmd[1:]))
    ctx.expect(not r.sig, lambda: "%s: %r was killed by signal %s\n%s" % (what, r.cmd[1:], r.sig, r.err[-600:]))
    ctx.expect("AddressSanitizer" not in r.err, lambda: "%s: %s" % (what, r.err[:1500]))
    if r.rc == 0:
        ctx.count["accepted"] += 1
        ctx.expect("panicked at" not in r.err, lambda: "%s: exit code 0 after a panic\n%s" % (what, r.err[:600]))
    else:
        ctx.count["rejected_%s" % r.rc] += 1
        ctx.expect(r.err.strip() != "" or (cmd == "check" and r.out.strip() != ""),
                   lambda: "%s: %r exits with %s and says nothing" % (what, r.cmd[1:], r.rc))
        if cmd != "check":
            ctx.expect(r.out == "", lambda: "%s: %r exits with %s but there is a report: %r" % (
                what, r.cmd[1:], r.rc, r.out[:300]))


def damage(rng, text):
    k = rng.choice(["del", "dup", "swap", "word", "word", "word", "line", "dupline", "moveline", "char", "cut", "head",
                    "indent", "unindent", "after", "after", "year", "number", "several"])
    n = len(text)
    if n == 0:
        return rng.choice(WORDS)
    i = rng.randrange(n)
    j = min(n, i + rng.choice([1, 1, 2, 3, 5, 10, 40]))
    if k == "after":
        # something odd right after something which has a meaning
        at = [m.end() for m in re.finditer(r"""[@=()\[\]|"'.:;*!$-]|  |\n|[0-9](?![0-9])""", text)]
        if at:
            i = rng.choice(at)
            return text[:i] + rng.choice(ODD + WORDS) + text[i:]
    if k in ("year", "number"):
        at = list(re.finditer(r"(?m)^[0-9]{4}|[0-9]{4}(?=-)" if k == "year" else r"[0-9]+", text))
        if at:
            m = rng.choice(at)
            x = rng.choice(["0", "-1", "1", "99", "9999", "10000", "12020", "262143", "262144", "-262145", "99999999999", "-44"]
                           if k == "year" else ["0", "00000", "-0", "1" * 50, "1" * 5000, "0." + "3" * 3000, "1.", ".1", "\u0663"])
            return text[:m.start()] + x + text[m.end():]
    if k == "several":
        # the same thing in many places
        w = rng.choice(sorted(set(re.findall(r"[^\w\s]|\w+|\s+", text))))
        return text.replace(w, rng.choice(WORDS + ODD + [w + w, ""]), rng.choice([-1, -1, 2, 5]))
    if k == "del":
        return text[:i] + text[j:]
    if k == "dup":
        return text[:j] + text[i:]
    if k == "swap":
        return text[:i] + text[i:j][::-1] + text[j:]
    if k == "word":
        return text[:i] + rng.choice(WORDS) + text[rng.choice([i, j]):]
    if k == "char":
        return text[:i] + chr(rng.choice([0, 9, 10, 13, 32, 34, 39, 40, 41, 45, 46, 47, 58, 59, 61, 64, 91, 93, 124, 233,
                                          0x2028, 0x1F600, 0xFEFF])) + text[i + 1:]
    if k == "cut":
        return text[:i]
    if k == "head":
        return text[i:]
    lines = text.split("\n")
    a = rng.randrange(len(lines))
    if k == "line":
        lines.pop(a)
    elif k == "dupline":
        lines.insert(rng.randrange(len(lines) + 1), lines[a])
    elif k == "moveline":
        x = lines.pop(a)
        lines.insert(rng.randrange(len(lines) + 1), x)
    elif k == "indent":
        lines[a] = rng.choice([" ", "\t", "    "]) + lines[a]
    else:
        lines[a] = lines[a].lstrip()
    return "\n".join(lines)


def prepare(tier):
    if tier == "thorough":
        from ..core import build
        try:
            return {"asan": build("asan")}
        except Exception:
            return {}
    return {}


def nested(n):
    return "2020-01-01 x\n a  1 EUR\n b\n\n= a\n (c)  " + "(" * n + "amount" + ")" * n + "\n"


def case(ctx, rng, idx):
    if idx == 0:
        # a known finding: the stack overflows
        ctx.write("j.ledger", nested(1000))
        r = ctx.run("bal", "-f", "j.ledger")
        known = [k for k in load_known()["findings"] if k["id"] == "nested-parentheses"]
        if r.sig and known:
            ctx.known.append(known[0]["what"])
        else:
            observe(ctx, r, "1000 nested parentheses", "bal")
        ctx.write("j.ledger", nested(100))
        observe(ctx, ctx.run("bal", "-f", "j.ledger"), "100 nested parentheses", "bal")
        return
    exe = None
    if "asan" in ctx.variants and idx % 4 == 0:
        exe = ctx.variants["asan"]
        ctx.count["asan_runs"] += 1

    def run(*args):
        if exe:
            # the sanitizer's runtime has to be the first library
            return ctx.run(*args, exe=exe, preload=False, timeout=60,
                           env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"})
        return ctx.run(*args)
    raw = SEED_JOURNAL.encode()
    if idx <= len(raw):
        data, what = raw[:idx], "cut at %d" % idx
    elif idx < len(raw) + 40:
        k = idx - len(raw)
        what = "special %d" % k
        data = [b"", b"\n", b" ", b"\xff\xfe", b"\x00", b"\xef\xbb\xbf2020-01-01 x\n a  1 EUR\n b\n", b"a" * 100000,
                b"2020-01-01 " + b"x" * 100000 + b"\n a  1 EUR\n b\n", b"2020-01-01 x\n " + b":a" * 3000 + b"  1 EUR\n b\n",
                b"2020-01-01 x\n a  " + b"9" * 20000 + b" EUR\n b\n", b"\n" * 100000, b" " * 100000, b";" * 100000,
                b"2020-01-01 x\n a  1 EUR\n b", b"2020-01-01 x", b"2020-01-01", b"2020", b"=", b"= a", b"= a\n (b)  ",
                b"= a\n (b)  (", b"P", b"P 2020-01-01", b"P 2020-01-01 EUR", b"P 2020-01-01 EUR 1", b"include",
                b"include ", b"include \n", b"include *", b"include [", b"account", b"account ", b"commodity", b"payee",
                b"payee \n    alias [\n", b"tag", b"tag \n", b"account a\n    payee (\n", b"i", b"p"][k]
    else:
        k = rng.random()
        if k < 0.2:
            text = SEED_JOURNAL
        elif k < 0.5:
            w = World(rng, huge=0)
            if w.items is None:
                return
            text = write(w.items, Style(rng, rng.choice([0, 0.5, 1]), crlf=rng.random() < 0.1))
        else:
            g = Gen(rng, notes=0.2, odd=0.3)
            items, extra = full_journal(rng, g, rng.choice([1, 2, 4]))
            tagged(rng, items)
            items += extra
            if rng.random() < 0.3:
                items.append(Auto("Assets", [Posting("Budget", Amt("2", ""), kind="V")]))
            rng.shuffle(items)
            text = write(items, Style(rng, rng.choice([0, 0.5, 1]), crlf=rng.random() < 0.1))
        n = rng.choice([1, 1, 1, 2, 3, 8, 30])
        for _ in range(n):
            text = damage(rng, text)
        data, what = text.encode("utf-8", "surrogatepass"), "damaged %d times" % n
        if rng.random() < 0.1:
            b = bytearray(data or b"x")
            for _ in range(rng.randint(1, 4)):
                b[rng.randrange(len(b))] = rng.randrange(256)
            data = bytes(b)
        if rng.random() < 0.01:
            data, what = bytes(rng.randrange(256) for _ in range(rng.randrange(300))), "random bytes"
    if data.count(b"(") > 300:
        return
    ctx.write("j.ledger", data)
    # what it might include must not be the file itself under another name only
    cmd = rng.choice(COMMANDS)
    args = []
    k = rng.random()
    if k < 0.05:
        args = [rng.choice(["(", "[", "expr", "and", "or", "@", "%", "@[", "/", "//", "", "a and", "^", "*", "+a", "\\"])]
        cmd = rng.choice(["bal", "reg"])
    elif k < 0.08:
        args = rng.choice([["--depth", "0"], ["-d", "99999999999999999999"], ["-b", "2020-99-99"], ["-e", ""], ["-X", ""],
                           ["-X", "EUR"], ["-X", "nope"], ["--no-such"], ["-b", "yesterday"], ["-e", "2020-1"],
                           ["expr"], ["expr", ""], ["expr", "amount >"], ["expr", "1 / 0 > 1"], ["expr", "amount / 0 > 1"],
                           ["-f", "other"], ["--init-file"], ["--period", "x"], ["--now", "2020-01-01"]])
        cmd = rng.choice(["bal", "reg"])
    if k < 0.01:
        r = run(rng.choice(COMMANDS), "-f", rng.choice([".", "missing", "/dev/null", "j.ledger/x", ""]))
        observe(ctx, r, "an unreadable file", r.cmd[1])
        return
    r = run(cmd, "-f", "j.ledger", *args)
    if args:
        # a wrong query may be found out in the middle of the report
        ctx.expect(not r.timeout and not r.sig, lambda: "%r: %s" % (r.cmd[1:], r.brief()))
        ctx.count["hostile_arguments"] += 1
    else:
        observe(ctx, r, what, cmd)
        other = rng.choice([c for c in COMMANDS if c != cmd])
        s = run(other, "-f", "j.ledger")
        observe(ctx, s, what, other)
        ctx.expect((r.rc == 0) == (s.rc == 0), lambda: "%s: %s exits with %s and %s with %s" % (
            what, cmd, r.rc, other, s.rc))
    ctx.seen(data, sample_of(ctx, 400))
