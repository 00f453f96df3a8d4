"""What several properties need"""
from fractions import Fraction as F

from .core import Violation
from .journal import Amt, Directive, Posting, Price, Style, Txn, dec, write
from .model import Ledger, Reject, Unclear
from .reports import (amounts, check_flat, check_register, check_total, check_tree, parse_balance,
                      register_expected)

COMMANDS = ["bal", "reg", "accounts", "payees", "commodities", "prices", "check"]


def style(rng, **kw):
    return Style(rng, rng.choice([0, 0.2, 0.5, 0.9]), **kw)


def put(ctx, items, rng=None, name="j.ledger", st=None):
    ctx.write(name, write(items, st or (style(rng) if rng else Style())))
    return name


def verdict(items, **kw):
    """'ok', 'reject' or None (nothing to say), and the ledger"""
    try:
        return "ok", Ledger(items, **kw)
    except Reject as r:
        return "reject", r
    except Unclear:
        return None, None


def accepted(ctx, r, what="a correct journal"):
    ctx.count["accepted"] += 1
    ctx.expect(r.ok, lambda: "%s was not accepted by %r: %s\n%s" % (what, r.cmd[1:], r.brief(), r.err[:600]))


def rejected(ctx, r, what="a wrong journal"):
    """Non-zero exit, no report, a diagnostic"""
    ctx.count["rejected"] += 1
    ctx.expect(not r.timeout and not r.sig, lambda: "%s: %r %s" % (what, r.cmd[1:], r.brief()))
    ctx.expect(r.rc != 0, lambda: "%s was accepted by %r\n%s" % (what, r.cmd[1:], r.out[:400]))
    out = r.out
    if r.cmd[1] == "check":
        ctx.expect("OK" not in out.replace(r.cmd[-1], ""), lambda: "check says OK: %r" % out)
    else:
        ctx.expect(out == "", lambda: "%s was rejected, but there is a report: %r" % (what, out[:400]))
    ctx.expect(r.err.strip() != "", lambda: "%s was rejected without saying anything" % what)


def comms_of(items, led=None):
    out = set()
    for it in items:
        if isinstance(it, Price):
            out |= {it.comm, it.amt.comm}
        for p in getattr(it, "postings", []):
            for a in (p.amt, p.cost[1] if p.cost else None, p.bal):
                if a is not None:
                    out.add(a.comm)
    if led is not None:
        out |= set(led.comms.names.values())
    return out


def check_reports(ctx, led, name="j.ledger", keep=None, args=(), which=("flat", "tree", "reg"), comms=None):
    comms = comms or set(led.comms.names.values())
    if "flat" in which:
        r = ctx.run("bal", "-f", name, "--flat", *args)
        accepted(ctx, r)
        rows, total = parse_balance(r.out, comms)
        check_flat(rows, led.flat(keep), ctx)
        check_total(rows, total, led.total(keep))
    if "tree" in which:
        r = ctx.run("bal", "-f", name, *args)
        accepted(ctx, r)
        rows, total = parse_balance(r.out, comms)
        check_tree(rows, led.subtree(keep), None, ctx)
        check_total(rows, total, led.total(keep))
    if "reg" in which:
        r = ctx.run("reg", "-f", name, *args)
        accepted(ctx, r)
        check_register(r.out, register_expected(led, keep), ctx)
    return led


def sample_of(ctx, n=700):
    t = ctx.trace[-1] if ctx.trace else {"args": [], "result": "", "stdout": ""}
    f = sorted(ctx.files)
    return {"journal": ctx.files[f[0]].decode("utf-8", "replace")[:n] if f else "", "args": t["args"],
            "result": t["result"], "stdout": t["stdout"][:300]}
