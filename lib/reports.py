"""Reading reports back. They are read leniently: the width of the columns is nobody's property."""
import re

from .core import Violation
from .model import show

RE_AMT = re.compile(r"^\s*(-?\d+\.\d+) (.*)$")
RE_ZERO = re.compile(r"^\s*0(?:  +(.*))?$")


class Row:
    __slots__ = ("amounts", "label", "level")

    def __init__(self, amounts, label, level):
        self.amounts, self.label, self.level = amounts, label, level

    def __repr__(self):
        return "%r %s%s" % (self.amounts, "  " * (self.level or 0), self.label)


def split_comm(rest, comms):
    """`rest` is a commodity, perhaps followed by spaces and an account"""
    best = None
    for c in comms:
        if rest == c or rest.startswith(c + "  "):
            if best is None or len(c) > len(best):
                best = c
    if best is None:
        raise Violation("the report shows an unknown commodity: %r" % rest)
    tail = rest[len(best):]
    if not tail:
        return best, None, None
    label = tail.lstrip(" ")
    return best, label, (len(tail) - len(label)) // 2 - 1


def parse_balance(out, comms):
    """[Row], total (None if it is not shown). Amounts are the texts shown."""
    rows, pending, total = [], [], None
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for line in lines:
        if re.match(r"^-{10,}$", line):
            if total is not None or pending:
                raise Violation("unexpected line in the balance report: %r" % line)
            total = []
            continue
        m = RE_AMT.match(line)
        if m:
            c, label, level = split_comm(m.group(2), comms)
            text = "%s %s" % (m.group(1), c)
        else:
            z = RE_ZERO.match(line)
            if not z:
                raise Violation("unexpected line in the balance report: %r" % line)
            text, label, level = "0", z.group(1), 0
        if total is not None:
            if label:
                raise Violation("account after the total: %r" % line)
            total.append(text)
            continue
        pending.append(text)
        if label is not None:
            rows.append(Row(pending, label, level))
            pending = []
    if pending:
        raise Violation("amounts without account: %r" % pending)
    return rows, total


def amounts(bal):
    """A balance as the set of texts a report shows for it"""
    return sorted(show(c, v) for c, v in bal.items()) or ["0"]


def resolve_tree(rows):
    """[(full account, Row)] from the indentation of a tree report"""
    stack, out = [], []
    for r in rows:
        while stack and len(stack[-1]) > r.level:
            stack.pop()
        have = len(stack[-1]) if stack else 0
        if have != r.level:
            raise Violation("row %r hangs from an account which is not shown" % r)
        full = (stack[-1] if stack else []) + r.label.split(":")
        stack.append(full)
        out.append((":".join(full), r))
    return out


def squash(s):
    return re.sub(r"\s+", "", s)


def clip_ok(desc):
    return len(desc.encode()) + 1 < 39


def register_expected(led, keep=None):
    """What the register has to show: [(date or '', description, account, amount, {comm: running})]"""
    run, out = {}, []
    from .model import add
    for t in led.txns:
        first = True
        for p in t.postings:
            if keep is not None and not keep(t, p):
                continue
            add(run, p.comm, p.val)
            acc = {"R": "%s", "V": "(%s)", "B": "[%s]"}[p.kind] % p.account
            out.append((t.date.isoformat() if first else "", led.display_payee(t) if first else "", acc,
                        show(p.comm, p.val), dict(run)))
            first = False
    return out


def check_register(out, expected, ctx=None):
    """Raises Violation unless `out` is the register of `expected`"""
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    i = 0
    for n, (d, desc, acc, amt, run) in enumerate(expected):
        want = amounts(run)
        if i >= len(lines):
            raise Violation("the register ends before posting %d: %s %s" % (n + 1, acc, amt))
        group = lines[i:i + len(want)]
        i += len(want)
        head = squash(group[0])
        tail = squash(acc) + squash(amt)
        if d:
            if not head.startswith(d):
                raise Violation("posting %d: expected date %s, found %r" % (n + 1, d, group[0]))
            head = head[len(d):]
            if clip_ok(desc):
                if not head.startswith(squash(desc)):
                    raise Violation("posting %d: expected description %r, found %r" % (n + 1, desc, group[0]))
                head = head[len(squash(desc)):]
            else:
                k = squash(desc[:30])
                if not head.startswith(k):
                    raise Violation("posting %d: expected description %r..., found %r" % (n + 1, desc, group[0]))
                j = head.find(".." + tail, len(k))
                if j < 0:
                    j = head.find(tail, len(k)) - 2
                    if j < 0:
                        raise Violation("posting %d: expected %s %s, found %r" % (n + 1, acc, amt, group[0]))
                head = head[j + 2:]
        elif re.match(r"^\d{4}-\d\d-\d\d ", group[0]):
            raise Violation("posting %d (%s %s) does not start a transaction: %r" % (n + 1, acc, amt, group[0]))
        if not head.startswith(tail):
            raise Violation("posting %d: expected %s %s, found %r" % (n + 1, acc, amt, group[0]))
        got = sorted([head[len(tail):]] + [squash(x) for x in group[1:]])
        if got != sorted(squash(w) for w in want):
            raise Violation("posting %d (%s %s): expected running total %r, found %r" % (n + 1, acc, amt, want, group))
        if ctx is not None:
            ctx.count["register_rows"] += 1
    if i != len(lines):
        raise Violation("the register has more lines than postings: %r" % lines[i:i + 3])


def check_flat(rows, want, ctx=None):
    """Raises Violation unless the rows are exactly the accounts of `want` with their amounts"""
    got = {}
    for r in rows:
        if r.label in got:
            raise Violation("account %r appears twice" % r.label)
        got[r.label] = sorted(r.amounts)
        if ctx is not None:
            ctx.count["balance_rows"] += 1
    exp = {a: amounts(b) for a, b in want.items() if b}
    if got != exp:
        for a in sorted(set(got) | set(exp)):
            if got.get(a) != exp.get(a):
                raise Violation("account %r: expected %r, found %r" % (a, exp.get(a), got.get(a)))


def check_tree(rows, sub, depth=None, ctx=None):
    """Raises Violation unless the tree shows what `sub` says of every account"""
    sub = {a: b for a, b in sub.items() if b}
    covered = set()
    for full, r in resolve_tree(rows):
        if ctx is not None:
            ctx.count["tree_rows"] += 1
        if full not in sub:
            raise Violation("row %r: there is nothing in account %r" % (r, full))
        parts = full.split(":")
        if depth is not None and len(parts) > depth:
            raise Violation("row %r is deeper than %d" % (r, depth))
        for i in range(r.level + 1, len(parts) + 1):
            a = ":".join(parts[:i])
            if a in covered:
                raise Violation("account %r appears twice" % a)
            if a not in sub:
                # an ancestor which adds up to zero has no row of its own, its name is needed though
                continue
            if i < len(parts) and sub[a] != sub[full]:
                # nothing may be hidden behind a collapsed name
                raise Violation("row %r hides account %r, which has %r" % (r, a, amounts(sub[a])))
            covered.add(a)
        if sorted(r.amounts) != amounts(sub[full]):
            raise Violation("account %r: expected %r, found %r" % (full, amounts(sub[full]), r.amounts))
    for a in sub:
        if depth is not None and a.count(":") + 1 > depth:
            continue
        if a not in covered:
            raise Violation("account %r with %r is not in the report" % (a, amounts(sub[a])))


def check_total(rows, total, want, shown=True):
    if not shown or len(rows) < 2:
        if total is not None and not shown:
            raise Violation("the report has a total")
        return
    if total is None:
        raise Violation("the report has no total")
    if sorted(total) != amounts(want):
        raise Violation("total: expected %r, found %r" % (amounts(want), total))
