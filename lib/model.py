"""The reference: what a journal means, in exact fractions.

Written from the documentation and the properties, without looking at how the program does it.
"""
import re
from dataclasses import dataclass, field
from datetime import date
from fractions import Fraction as F
from typing import List, Optional

from .journal import Amt, Auto, Directive, Price, Txn


class Reject(Exception):
    """The journal has to be rejected"""

    def __init__(self, why, txn=None):
        Exception.__init__(self, why)
        self.why, self.txn = why, txn


class Unclear(Exception):
    """The properties say nothing about this journal"""


@dataclass
class MPosting:
    account: str
    comm: Optional[str]
    val: F
    kind: str
    payee: str
    tags: list
    origin: str = "txn"  # txn, fill, auto
    src: object = None


@dataclass
class MTxn:
    date: date
    desc: str
    payee: str
    postings: List[MPosting]
    tags: list
    notes: list
    src: object
    residual: dict = field(default_factory=dict)


def add(bal, comm, val):
    if comm is None or val == 0:
        return
    v = bal.get(comm, F(0)) + val
    if v == 0:
        bal.pop(comm, None)
    else:
        bal[comm] = v


def tags_of(text):
    """The tags a comment defines: [(name, value or None)]"""
    m = re.search(r"(:.+:) *$", text)
    if m:
        return [(x, None) for x in m.group(1).split(":")[1:-1]]
    if ":" in text:
        name, value = text.rsplit(":", 1)
        name = name.lstrip(" ")
        if ":" in name:
            return []
        return [(name, value.strip(" "))]
    return []


class Names:
    """Names and aliases, which do not mind the case"""

    def __init__(self):
        self.names, self.alias = {}, {}

    def declare(self, name, aliases=()):
        k = name.lower()
        if k in self.names:
            return
        self.names[k] = name
        for a in aliases:
            self.alias[a.lower()] = k

    def use(self, name):
        k = name.lower()
        if k not in self.names and k not in self.alias:
            self.names[k] = name

    def get(self, name):
        k = name.lower()
        if k in self.names:
            return self.names[k]
        return self.names[self.alias[k]]

    def has(self, name):
        k = name.lower()
        return k in self.names or k in self.alias


class Ledger:
    """A journal after interpreting it. Raises Reject if it should not be accepted."""

    def __init__(self, items, check=True, match=None):
        self.items, self.check = items, check
        self.accounts, self.payees, self.comms = Names(), Names(), Names()
        self.payee_rules, self.unknown_rules = [], []
        self.prices = []
        self.match = match  # how to evaluate the query of an automated transaction
        self._names()
        self.txns = []
        for it in items:
            if isinstance(it, Price):
                self.prices.append((it.date, self.comms.get(it.comm), it.amt.val, self.comms.get(it.amt.comm), "P"))
        autos = [it for it in items if isinstance(it, Auto)]
        for it in items:
            if isinstance(it, Txn):
                self.txns.append(self._txn(it))
        self.txns.sort(key=lambda t: t.date)  # stable
        self._balance()
        if autos:
            self._automated(autos)

    # names -------------------------------------------------------------

    def _names(self):
        for it in self.items:
            if isinstance(it, Directive):
                if it.name.lower() in {"account": self.accounts, "payee": self.payees, "commodity": self.comms}.get(
                        it.what, Names()).names:
                    continue  # the first one counts
                if it.what == "account":
                    self.accounts.declare(it.name, it.aliases)
                    for k, v in it.props:
                        if k == "payee":
                            self.unknown_rules.append((it.name, v))
                elif it.what == "payee":
                    self.payees.declare(it.name, it.aliases)
                    for a in it.aliases:
                        self.payee_rules.append((it.name, a))
                elif it.what == "commodity":
                    self.comms.declare(it.name, it.aliases)
        acc, pay, com = set(), set(), set()
        for it in self.items:
            if isinstance(it, (Txn, Auto)):
                for p in it.postings:
                    acc.add(p.account)
                    if isinstance(it, Txn):
                        pay.add(it.payee if it.payee is not None else (it.desc or "[Unspecified payee]"))
                    for a in (p.amt, p.cost[1] if p.cost else None, p.bal):
                        if a is not None and (a.comm or isinstance(it, Txn)):
                            com.add(a.comm)
            elif isinstance(it, Price):
                com.add(it.comm)
                com.add(it.amt.comm)
        for a in sorted(acc):
            self.accounts.use(a)
        for c in sorted(com):
            self.comms.use(c)
        for p in sorted(pay):
            if self.payees.has(p):
                continue
            hits = sorted({n for n, rx in self.payee_rules if re.search(rx, p)})
            if len(hits) > 1:
                raise Unclear("several payees match")
            if hits:
                self.payees.alias[p.lower()] = hits[0].lower()
            else:
                self.payees.use(p)

    def account(self, name, payee):
        if name.lower().endswith("unknown"):
            hits = {n for n, rx in self.unknown_rules if re.search(rx, payee)}
            if len(hits) > 1:
                raise Unclear("several accounts match")
            if hits:
                return hits.pop()
        return self.accounts.get(name)

    # transactions ------------------------------------------------------

    def _txn(self, t):
        raw = t.payee if t.payee is not None else (t.desc or "[Unspecified payee]")
        payee = self.payees.get(raw) if t.postings else raw
        notes = ([t.head] if t.head is not None else []) + list(t.notes)
        tags = [x for n in notes for x in tags_of(n)]
        m = MTxn(t.date, t.desc, payee, [], tags, notes, t)
        for p in t.postings:
            ptags = tags + [x for n in p.notes for x in tags_of(n)]
            a = p.amt
            m.postings.append(MPosting(self.account(p.account, payee), self.comms.get(a.comm) if a else None,
                                       a.val if a else None, p.kind, payee, ptags, "txn", p))
        for p in t.postings:
            if p.cost:
                c, oc = self.comms.get(p.amt.comm), self.comms.get(p.cost[1].comm)
                v = p.cost[1].val
                if p.cost[0] == "@@":
                    if p.amt.val == 0:
                        raise Unclear("total cost of nothing")
                    v = v / abs(p.amt.val)
                self.prices.append((t.date, c, v, oc, "cost"))
        return m

    def _worth(self, p):
        """What a posting adds to its transaction: its cost, if it has one"""
        if p.src is not None and p.origin == "txn" and p.src.cost:
            kind, ca = p.src.cost
            return self.comms.get(ca.comm), ca.val * p.val if kind == "@" else (-ca.val if p.val < 0 else ca.val)
        return p.comm, p.val

    def _balance(self):
        running = {}
        for t in self.txns:
            virt = {}
            for p in t.postings:
                if p.kind != "R":
                    if p.val is None:
                        raise Reject("virtual posting without amount", t)
                    if p.kind == "B":
                        add(virt, *self._worth(p))
            if not can_be_zero(virt):
                raise Reject("virtual postings do not balance", t)
            res, out, blanks = {}, [], []
            for p in t.postings:
                if p.kind != "R":
                    continue
                bal = running.setdefault(p.account, {})
                src = p.src
                want = src.bal if src is not None and p.origin == "txn" else None
                if p.val is not None:
                    add(bal, p.comm, p.val)
                    if self.check and want is not None:
                        c = self.comms.get(want.comm)
                        if bal.get(c, F(0)) != want.val:
                            raise Reject("assertion", t)
                    add(res, *self._worth(p))
                    out.append(p)
                elif want is not None and self.check:
                    c = self.comms.get(want.comm)
                    if any(k != c for k in bal):
                        raise Unclear("assignment in an account with other commodities")
                    diff = want.val - bal.get(c, F(0))
                    add(bal, c, diff)
                    add(res, c, diff)
                    p.val, p.comm = diff, (c if diff != 0 else None)
                    out.append(p)
                else:
                    blanks.append(p)
            if len(blanks) > 1:
                raise Reject("several postings without amount", t)
            if not blanks:
                if not can_be_zero(res):
                    raise Reject("not balanced", t)
                t.residual = res
                if len(res) == 2:
                    (c1, v1), (c2, v2) = sorted(res.items())
                    self.prices.append((t.date, c1, abs(v2) / abs(v1), c2, "inferred"))
            else:
                b = blanks[0]
                for c, v in sorted(res.items()):
                    add(running.setdefault(b.account, {}), c, -v)
                    out.append(MPosting(b.account, c, -v, "R", b.payee, b.tags, "fill", None))
            t.postings = out + [p for p in t.postings if p.kind != "R"]

    def _automated(self, autos):
        for t in self.txns:
            for a in autos:
                extra = []
                originals = [p for p in t.postings if p.origin != "auto"]
                for p in originals:
                    if not self.match(a.query, p, t, self):
                        continue
                    for n in a.notes:
                        p.tags = p.tags + tags_of(n)
                    for ap in a.postings:
                        if ap.expr is not None:
                            comm, val = self.match(ap.expr, p, t, self, amount=True)
                        elif ap.amt.comm == "":
                            comm, val = p.comm, p.val * ap.amt.val
                        else:
                            comm, val = self.comms.get(ap.amt.comm), ap.amt.val
                        extra.append(MPosting(self.accounts.get(ap.account), comm, val, ap.kind, p.payee, [],
                                              "auto", None))
                t.postings = t.postings + extra
        # The prices which were not given come from the postings there are now
        self.prices = [x for x in self.prices if x[4] != "inferred"]
        self._balance()

    # reports -----------------------------------------------------------

    def all(self, keep=None):
        for t in self.txns:
            for p in t.postings:
                if keep is None or keep(t, p):
                    yield t, p

    def balances(self, keep=None):
        out = {}
        for t, p in self.all(keep):
            add(out.setdefault(p.account, {}), p.comm, p.val)
        return out

    def flat(self, keep=None, depth=None):
        out = {}
        for acc, bal in self.balances(keep).items():
            name = acc if depth is None else ":".join(acc.split(":")[:depth])
            for c, v in bal.items():
                add(out.setdefault(name, {}), c, v)
        return {a: b for a, b in out.items() if b}

    def subtree(self, keep=None):
        """Every account and ancestor with the sum of what hangs from it"""
        out = {}
        for acc, bal in self.balances(keep).items():
            parts = acc.split(":")
            for i in range(1, len(parts) + 1):
                b = out.setdefault(":".join(parts[:i]), {})
                for c, v in bal.items():
                    add(b, c, v)
        return out

    def total(self, keep=None):
        tot = {}
        for _, p in self.all(keep):
            add(tot, p.comm, p.val)
        return tot

    def display_payee(self, t):
        """The name the register shows"""
        if self.payees.has(t.desc):
            return self.payees.get(t.desc)
        return t.desc


def can_be_zero(res):
    res = {c: v for c, v in res.items() if v}
    if not res:
        return True
    return any(v > 0 for v in res.values()) and any(v < 0 for v in res.values())


def show(comm, val):
    """An amount as the reports show it: two decimals, half away from zero"""
    if comm is None:
        return "0"
    q = abs(val) * 100
    n = q.numerator * 2 + q.denominator
    cents = n // (2 * q.denominator)
    sign = "-" if val < 0 and cents else ""
    return "%s%d.%02d %s" % (sign, cents // 100, cents % 100, comm)
