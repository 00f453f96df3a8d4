#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after adding a property)"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

I, H, C, FS = "inputs", "histories", "configurations", "fault_sequences"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=("stdout, stderr and exit "
         "code of the dinero executable",)):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


TX, MM, GR = "src/models/transaction.rs", "src/models/mod.rs", "src/grammar/grammar.pest"
TT, PM, VE = "src/parser/tokenizers/transaction.rs", "src/parser/mod.rs", "src/parser/value_expr.rs"
BAL, REG = "src/commands/balance.rs", "src/commands/register.rs"

prop("C01", "A journal is accepted if and only if every transaction balances",
     "A journal in which some transaction's real postings (or its [bracketed] virtual ones) do not add up to zero, taking "
     "costs into account and allowing an exchange between commodities without a price, is rejected by every command with a "
     "non-zero exit code, a diagnostic and no report; so is one with two or more postings without amount in a transaction. "
     "A journal in which they all balance exactly is accepted by every command.",
     [I], "every journal, every command; amounts and costs of any size and number of decimals, any number of postings",
     "The tests have a few balanced and unbalanced transactions of two or three postings with short amounts; an "
     "imbalance may be of any size, in any commodity, at any place.",
     [TX, MM, "src/models/balance.rs", "src/models/money.rs"],
     [("Transaction::balance", TX), ("total_balance", TX), ("Balance::can_be_zero", "src/models/balance.rs"),
      ("ParsedLedger::to_ledger", MM)],
     "differential runtime monitoring against an exact-fraction reference", "exit code, streams and absence of a report")
prop("C02", "An amount left out is exactly what balances the transaction",
     "When one real posting of a transaction has no amount, every report shows it with exactly the negated rest of the "
     "transaction (costs applied), once per commodity with a rest, in its own account and nothing else changed. The "
     "journal gives the same balances as the one with the amount written in full.",
     [I], "every transaction with one blank posting in any position, any commodities, costs and virtual postings around it",
     "Tests have one blank in the last position with one commodity.",
     [TX], [("fill of the empty posting in Transaction::balance", TX)],
     "differential runtime monitoring: exact reference and written-out twin journal", "balance, register and an exact later assertion")
prop("C03", "Amounts are added, multiplied, divided and converted exactly",
     "No sum, cost, automated multiplier, value expression or conversion loses precision or overflows, whatever the number "
     "of digits, decimals or postings: a balance assertion of the exact result is accepted and one which differs from it in "
     "the last decimal is rejected.",
     [I], "all amounts (tried to 60 digits and 40 decimals), all chains of operations",
     "Tests use amounts of a few digits, for which machine numbers would do as well.",
     ["src/models/money.rs", "src/models/balance.rs", "src/parser/utils.rs", TT, "src/models/price.rs"],
     [("BigRational everywhere", "src/models/money.rs"), ("parse_amount", TT), ("parse_rational", "src/parser/utils.rs")],
     "runtime probes of hooked balances by exact assertions", "assertions inside the journal probe exact values the display rounds")
prop("C04", "Amounts are displayed rounded to the nearest cent with their sign",
     "Every amount in a balance, a total, a register or a list of prices is the exact amount rounded to two decimals, half "
     "away from zero, with its sign when it does not round to zero and with the name of its commodity, whatever its size.",
     [I], "all rational amounts, next to rounding boundaries and of any size, in every report",
     "Tests display a handful of amounts.",
     ["src/models/money.rs", "src/models/price.rs", BAL, REG], [("Display for Money", "src/models/money.rs")],
     "differential runtime monitoring of displayed amounts", "rounding boundaries are hit on purpose")
prop("C05", "The flat balance shows every account with its exact balance, once",
     "bal --flat shows exactly the accounts whose balance is not zero, each once, with the exact sum of its postings in each "
     "commodity, and a total which is the sum of them all. With --depth n the accounts are cut to n levels and the "
     "amounts of those which become one are added; --no-total only removes the total.",
     [I, C], "all journals, account trees, depths and combinations of the options",
     "Tests compare a couple of demo reports.",
     [BAL], [("execute (flat)", BAL)], "differential runtime monitoring, all rows parsed back",
     "rows and total compared with exact sums")
prop("C06", "The tree balance shows for each account the sum of itself and its descendants",
     "In the tree report the amount of every row is the exact sum of the account named by the row (its ancestors given by "
     "the indentation) and of all its descendants. Every account or ancestor with a sum which is not zero is in the report "
     "exactly once, alone or in a row shared with an only child of the same amount, down to --depth, and the total is the "
     "sum of all postings.",
     [I, C], "all account trees and depths",
     "Tests have one tree of a few accounts.",
     [BAL], [("execute (tree)", BAL), ("is_child", BAL)], "differential runtime monitoring, tree rebuilt from indentation",
     "accounts rebuilt from the indentation, compared with exact sums")
prop("C07", "The register shows every posting once, by date, with its running total",
     "reg shows each posting of each transaction exactly once, in the order of the dates and, the same day, of the file; the "
     "first one of each transaction shows its date and description, and each row its account, its amount and the exact "
     "running total, per commodity, of all the rows up to it.",
     [I, H], "all journals, any order of the file, any number of commodities",
     "Tests count lines of short registers.",
     [REG, MM], [("execute", REG), ("sort of the transactions", MM)], "differential runtime monitoring, row by row",
     "each row compared with an exact replay of the postings")
prop("C08", "Balance assertions and assignments hold exactly, in date order",
     "A journal with a posting which asserts a balance is accepted only if, after that posting in date order (then file "
     "order), the account holds exactly that amount of that commodity. A posting with only an assertion gets the "
     "amount which takes the account to it; --no-balance-check skips assertions and nothing else.",
     [H], "all histories of postings, with assertions anywhere, right or wrong by any amount",
     "Tests have a right and a wrong assertion; the state asserted depends on the whole history before it.",
     [TX, MM], [("balance assertions in Transaction::balance", TX), ("running balances", MM)],
     "online reference of the running balances over generated histories", "verdict and balances")
prop("C09", "The order in which the file is written does not matter",
     "Moving transactions, directives, prices and automated transactions around in a journal, keeping the relative order of "
     "the transactions of the same day, does not change what any command prints nor its exit code.",
     [H, I], "all journals and all permutations of their items which keep the order within a day",
     "Tests use files in order; permutations are factorially many.",
     [MM], [("two passes over the items, sort by date", MM)], "metamorphic runtime monitoring (permutations)",
     "byte comparison of outputs")
prop("C10", "The same journal always gives the same output",
     "Running the same command on the same files and the same day prints the same bytes and exits with the same code, "
     "whatever the random hash keys of the process, also for journals with ambiguous names, rules, prices or errors.",
     ["schedules", I], "all journals, all hash seeds",
     "A test runs once, with one hash seed.",
     ["src/list.rs", "src/models/balance.rs", "src/models/price.rs", MM, "src/commands/accounts.rs"],
     [("sorted iteration of lists and balances", "src/list.rs"), ("graph of prices", "src/models/price.rs")],
     "interposed randomness: hash seeds chosen by a preloaded monitor", "getrandom is interposed, so each seed is a different, "
     "reproducible iteration order of every hash map; the monitor counts the requests for randomness")
prop("C11", "Date limits and --real select exactly the postings they say",
     "Reports with --begin only show postings of transactions on that day or later, with --end those before that day, with --real "
     "no virtual postings; everything else stays, amounts are those of the selected postings, and the reports before a day "
     "and from it add up to the whole one. Whole months and years as limits mean their first day.",
     [I, C], "all journals, dates and combinations of limits in all accepted notations",
     "Tests use one or two dates.",
     ["src/filter.rs", "src/app.rs"], [("filter", "src/filter.rs"), ("date_parser", "src/app.rs")],
     "differential and metamorphic runtime monitoring", "limits at the dates of the journal and around them")
prop("C12", "Queries select exactly the postings which match",
     "A report with a query shows exactly the postings which satisfy it: a word is looked for in the account, @word in the payee, %word in "
     "the tags, ignoring case, /word/ minding it; 'and' and 'or' combine terms, terms next to each other mean "
     "or, and limits of dates apply on top.",
     [I, C], "all journals and all queries of the supported forms",
     "Tests have a few queries against one demo file.",
     ["src/filter.rs", VE], [("preprocess_query", "src/filter.rs"), ("filter_expression", "src/filter.rs")],
     "differential runtime monitoring with generated queries", "reference evaluator of queries")
prop("C13", "Value expressions are evaluated with the usual meaning",
     "An expression query selects exactly the postings for which it is true, with the usual precedence and left "
     "associativity of arithmetic, comparisons (==, !=, <, <=, >, >=, =~) and boolean operators (and, or, not or !), exact arithmetic, any number of operands, and "
     "amount, date, account, payee, note and tags standing for those of the posting.",
     ["programs", I], "all typed expressions over all postings", "Tests evaluate fewer than ten expressions.",
     [VE, GR], [("eval", VE), ("build_ast_from_expr", VE), ("expr rules", GR)],
     "differential runtime monitoring with generated typed expressions", "reference evaluator with exact fractions")
prop("C14", "Automated transactions apply to exactly the postings which match",
     "For every posting of the journal which matches the query of an automated transaction, and for no other, its postings are "
     "added once to the transaction of that posting, with the amount of the posting times the multiplier, the fixed amount or "
     "the value of the expression, and its tags are given to the posting; the result still has to balance.",
     [I, "programs"], "all journals and automated transactions, anywhere in the file",
     "Tests have two rules over four transactions.",
     [MM, TX, TT], [("automated transactions in to_ledger", MM), ("parse_automated_transaction", TT)],
     "differential runtime monitoring against the reference", "reports, tag queries and verdict")
prop("C15", "The list of prices has every price of the journal, once",
     "prices lists exactly one line per price directive, per posting with a unit or total cost and per exchange between two "
     "commodities without a price, with its date, commodity and positive unit price, wherever they are in the file and whatever automated "
     "transactions there are.",
     [I, H], "all journals with prices, costs and exchanges", "Tests only check that the command works.",
     [MM, TX, "src/commands/prices.rs", "src/parser/tokenizers/price.rs"],
     [("prices from directives and postings", MM), ("inferred prices", TX)],
     "offline multiset check of the price log", "the list as a multiset against the reference")
prop("C16", "Conversion uses the latest known quotes, chained when needed",
     "bal -X shows each amount in the target commodity at the latest quote known at the current day between both, in either "
     "direction, or through the chain of latest quotes which are nearest to that day; amounts without any such chain stay as "
     "they are, and the total is the sum of what is shown.",
     [I, H, C], "all graphs of quotes, journals, targets and current days",
     "One test, one quote, whatever day the test runs.",
     ["src/models/price.rs", BAL], [("conversion", "src/models/price.rs"), ("convert_balance", BAL)],
     "differential runtime monitoring under an interposed clock", "the clock is set by the monitor; all chains are enumerated")
prop("C17", "Aliases and letter case name the same account or commodity",
     "Writing an account or commodity with one of the aliases of its directive, or in another case, anywhere in the journal "
     "and with the directive anywhere in it, gives the same output as writing the name of the directive.",
     [I], "all journals, all replacements of names by aliases and cases", "Tests use one alias in one place.",
     ["src/list.rs", MM, "src/models/account.rs", "src/models/currency.rs"],
     [("List::get", "src/list.rs"), ("List::add_alias", "src/list.rs")], "metamorphic runtime monitoring",
     "byte comparison with the journal written with canonical names")
prop("C18", "Including files is the same as having their contents in one file",
     "Splitting a journal into files joined by include directives (relative to the including file, with ./, ../, globs, "
     "nested, from any working directory) does not change what any command prints. A loop of includes or a missing file is an "
     "error, as is any error in an included file, never a hang and never silently skipped.",
     [I, H, FS], "all ways of splitting a journal into trees of files", "Tests include two files at one level.",
     ["src/parser/include.rs", PM], [("include::parse", "src/parser/include.rs"), ("Tokenizer::seen_files", PM)],
     "metamorphic runtime monitoring and fault injection", "byte comparison with the single file")
prop("C19", "Tags belong to the postings they were written for",
     "A tag in a comment of a posting belongs to that posting and one in a comment of the transaction to all its "
     "postings, also those with amounts left out, virtual ones and with any number of tags; a tag with value has that value. "
     "Queries and expressions about tags select exactly the postings which have them.",
     [I], "all placements of comments and tags", "Tests have five comments and one file.",
     ["src/models/comment.rs", TX, TT, MM], [("Comment::get_tags", "src/models/comment.rs"), ("tags of postings", MM)],
     "differential runtime monitoring", "rows of tag queries against the reference")
prop("C20", "The lists of accounts, payees and commodities are complete and exact",
     "accounts, payees and commodities print, sorted and each once, exactly the names which the journal uses or "
     "declares: those of directives, postings, prices, costs and automated transactions, by their own name and not an alias.",
     [I], "all journals", "Tests count lines of one file.",
     ["src/commands/accounts.rs", "src/commands/payees.rs", "src/commands/commodities.rs", MM],
     [("lists filled in to_ledger", MM)], "differential runtime monitoring", "sets compared with the reference")
prop("C21", "The layout of the file does not change its meaning",
     "Indentation with spaces or tabs, the width of gaps, trailing space, blank lines and comments, date separators, "
     "leading and trailing zeros, the commodity before or after the number, quotes around it, the ends of lines and a missing "
     "last newline do not change what any command prints.",
     [I], "all journals and all ways of writing them", "Tests use one layout.",
     [TT, "src/parser/chars.rs", GR, PM], [("tokenizer", PM), ("grammar", GR), ("parse_posting", TT)],
     "metamorphic runtime monitoring (layouts)", "byte comparison with the plain layout")
prop("C22", "Options from the init file act as if given, the command line wins",
     "An option in the init file (given with --init-file, or ~/.ledgerrc, or ./.ledgerrc) has the same effect as in the command "
     "line, and one given in the command line in any of its forms takes precedence over it. Comments and blank lines are "
     "skipped; lines which are not options, and init files which do not exist, are errors.",
     [C], "all sets of options and ways of sharing them out", "Tests have one good and two bad files.",
     ["src/app.rs"], [("run_app", "src/app.rs")], "metamorphic runtime monitoring of configurations",
     "byte comparison with the command line form")
prop("C23", "Any input ends in a complete report or an explained failure",
     "Whatever the bytes of the journal and the arguments, the program ends by itself within a bounded time, never by a "
     "signal, and either prints a report and exits with 0 or exits with another code, explains why in the standard error and "
     "prints no report.",
     [I, FS], "all byte strings as journals and all argument lists", "Tests have well-formed files and a few errors.",
     [PM, "src/parser/chars.rs", TT, GR, "src/app.rs", "src/error.rs"], [("Tokenizer::tokenize", PM), ("run_app", "src/app.rs")],
     "fuzzing under a monitor of termination, signals, system calls (and AddressSanitizer)",
     "structured damage of rich journals; thorough runs also use an AddressSanitizer build")
prop("C24", "Malformed journals are rejected, never read as something else",
     "A journal with a malformed amount, cost, assertion, price, date, posting or directive, anywhere in it, is rejected by "
     "every command with a non-zero exit code, a diagnostic and no report: no text is skipped and none is read as another amount.",
     [I], "all journals with one malformed place", "Tests have three malformed inputs.",
     [TT, PM, GR, "src/parser/tokenizers/price.rs", "src/parser/utils.rs"],
     [("parse_posting", TT), ("tokenize", PM), ("grammar", GR)],
     "fault injection in journals, verdict monitor", "a catalogue of malformations with random numbers, in random places")
prop("C25", "Colour changes nothing but the colour",
     "With --force-color a report is, once the escape sequences which set colours are removed, the same as without it, byte by "
     "byte, and exits the same; without it and without a terminal there are no escape sequences.",
     [C, I], "all journals and reports", "Tests force colour off or do not compare.",
     ["src/app.rs", BAL, REG], [("force-color", "src/app.rs"), ("colored amounts", BAL)],
     "metamorphic runtime monitoring", "byte comparison after removing SGR sequences")
prop("C26", "Virtual postings never touch the real books",
     "Postings in parentheses or brackets do not take part in the balance of the real postings, in the amount which "
     "is left out or in what balance assertions of real postings see; with --real every report is that of the journal without "
     "them (apart from prices which only they give), and without it they are reported in their account, in parentheses or brackets in the register.",
     [I], "all journals with virtual postings anywhere", "One file with two virtual postings.",
     [TX, MM, "src/filter.rs", REG], [("kinds of postings", TX), ("filter", "src/filter.rs")],
     "metamorphic runtime monitoring: the same journal without virtual postings", "byte comparison and reference")
prop("C27", "Errors say where they are",
     "When a journal is rejected for its syntax the diagnostic names the file, also an included one, and a line of the item at "
     "fault; when a transaction does not balance or an assertion fails it shows the date and description of that transaction, "
     "and for an assertion also the amount asserted, the balance of the account and their difference.",
     [I], "all journals with one error, at any line, in any file", "Tests check only that it fails.",
     [PM, "src/error.rs", TX], [("Tokenizer::error", PM), ("Display for Transaction", TX)],
     "fault injection with a known location, monitor of diagnostics", "file, line and transaction in the diagnostic")
prop("C28", "Reports only read the journal",
     "No command writes, creates, truncates, renames or deletes any file, opens a socket or starts a process, and none reads "
     "files other than the journal, what it includes and the init file; the files are the same afterwards, whether it succeeds or fails.",
     [I, FS], "all journals, commands and options", "No test looks at system calls.",
     ["src/app.rs", PM, "src/parser/include.rs"], [("read_to_string", PM)],
     "interposed system calls and file tree snapshots", "a preloaded library sees (and refuses) every call which changes the file system",
     observe=("libc calls of the process", "the file tree before and after"))
prop("C29", "Dates mean the day they say",
     "A date in a transaction or price (written with - / or .) or in an option (with - or /), with or without leading zeros, is that day of the calendar: "
     "reports show it, sort by it and limit by it for every day of every year; days which do not exist are rejected.",
     [I], "all dates of the calendar (sampled densely around months, leap years and centuries), valid or not",
     "Tests have a dozen dates.", ["src/parser/utils.rs", GR, "src/app.rs", "src/parser/tokenizers/price.rs"],
     [("parse_date", "src/parser/utils.rs"), ("date rules", GR), ("date_parser", "src/app.rs")],
     "differential runtime monitoring against an independent calendar", "proleptic Gregorian calendar of Python")
prop("C30", "Payee rules decide payees and unknown accounts",
     "A description which matches an alias of a payee directive is reported as that payee, and a posting to an account whose "
     "name ends in 'unknown' goes to the account whose payee rule matches the payee of its transaction, when there is one; all others "
     "stay as they are written. Where the directives are makes no difference.",
     [I, H], "all journals, payee rules and positions of the directives", "Tests have one or two rules.",
     [MM, "src/models/payee.rs", "src/models/account.rs", "src/parser/tokenizers/payee.rs"],
     [("payee aliases", "src/models/payee.rs"), ("unknown accounts", MM)],
     "differential runtime monitoring against the reference", "registers, balances, lists and payee queries")
prop("C31", "All reports of a journal agree with each other",
     "For the same journal and options every command gives the same verdict, and the reports tell the same story: the sums of "
     "the register by account are the flat balance, the last running total is the total of the balance, the accounts reported "
     "are in the list of accounts, and a query splits the postings into those which match and those which do not.",
     [I, C], "all journals and combinations of options", "Tests look at one command at a time.",
     [BAL, REG, MM, "src/filter.rs"], [("to_ledger", MM), ("filter", "src/filter.rs")],
     "cross-report runtime monitoring, no reference needed", "invariants between outputs of the same journal")


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "lib", "props", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks = []
    for p in have:
        importlib.import_module("lib.props." + p["id"].lower())
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "runtime monitoring: " + p["technique"],
                       "level": "exploration",
                       "level_note": "Observed: %s. Holds on the executions explored, nothing is proved; trusts the reference in "
                                     "lib/ and the preloaded monitor." % p["note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: the executable is observed from outside (outputs, exit codes) and through a "
                            "preloaded library (randomness, clock, system calls)."}, f, indent=1)
        f.write("\n")


main()
