"""What each property's check runs: contract modules and bounded suites."""

# property -> [(suite, focus for the script generator, keyword arguments, quick cases, thorough cases)]
S = "scripts"
EFF = dict(expr=8, inc=6, exec=2)
BOUNDED = {
    "C01": [("purity", 320, 4000), ("copies", 1500, 30000), ("rewinds", 500, 8000)],
    "C02": [(S, dict(focus=dict(assign=14, compound=12, inc=8, expr=8, keyword=2, select=2, exec=2)), 500, 6000),
            ("big", dict(kinds=['body', 'nest']), 160, 1920)],
    "C03": [(S, dict(focus={"if": 16, "expr": 8, "inc": 5, "select": 1}, depth=4), 500, 6000),
            ("big", dict(kinds=['if', 'nest']), 160, 1920)],
    "C04": [(S, dict(focus={"while": 9, "range": 10, "in": 7, "keyword": 1, "select": 1}, depth=3), 300, 4000),
            ("loops", 400, 5000),
            ("big", dict(kinds=['range', 'while', 'in']), 320, 3840)],
    "C05": [(S, dict(focus={"while": 7, "range": 7, "in": 4, "if": 8, "break": 9, "continue": 9, "select": 4,
                            "exec": 3, "keyword": 1}, depth=4, size=4), 400, 5000),
            ("big", dict(kinds=['nest', 'while', 'range']), 240, 2880)],
    "C06": [(S, dict(focus=dict(select=16), depth=2), 350, 4000), ("menus", 500, 6000),
            ("big", dict(kinds=['menu']), 160, 1920)],
    "C07": [(S, dict(focus={"select": 14, "break": 6, "while": 2, "range": 2}, depth=3, size=4), 400, 5000),
            ("menus", 300, 4000),
            ("big", dict(kinds=['menu', 'nest']), 160, 1920)],
    "C08": [(S, dict(focus={"return": 4, "cancel": 4, "exec": 3, "if": 8, "select": 4}, depth=4), 500, 6000),
            ("big", dict(kinds=['nest', 'exec']), 160, 1920)],
    "C09": [("runner", 500, 6000)],
    "C10": [("values", 1200, 10 ** 6), (S, dict(focus=dict(assign=14, compound=8), err=0.02), 150, 2000)],
    "C11": [("containers", 6000, 200000), (S, dict(focus={"in": 6}, err=0.02), 150, 2000)],
    "C12": [(S, dict(focus=dict(assign=16, expr=10, compound=6), depth=2, size=8, err=0.02), 600, 8000),
            ("forms", 320, 3000),
            ("big", dict(kinds=['expr']), 240, 2880)],
    "C13": [(S, dict(focus=dict(bad=3, assign=10, expr=10), depth=3, err=0.04), 600, 8000),
            ("errortexts", 500, 6000)],
    "C14": [("calls", 1000, 20000), (S, dict(focus=dict(expr=14, assign=14), err=0.06), 300, 4000),
            ("big", dict(kinds=['expr']), 160, 1920)],
    "C15": [("functions", 20000, 400000), (S, dict(focus=dict(expr=14, assign=14), err=0.03), 150, 2000)],
    "C16": [(S, dict(focus=dict(keyword=30, bad=0.6), depth=2), 500, 6000), ("selections", 300, 4000),
            ("big", dict(kinds=['keywords']), 160, 1920)],
    "C17": [("selections", 900, 12000),
            ("big", dict(kinds=['keywords']), 160, 1920)],
    "C18": [("selections", 600, 8000), ("tweaks", 1500, 30000),
            ("big", dict(kinds=['keywords']), 120, 1440)],
    "C19": [("names", 8000, 200000)],
    "C20": [("mappings", 3000, 60000)],
    "C21": [("severities", 1200, 20000)],
    "C22": [(S, dict(focus={"exec": 12, "while": 4, "range": 4, "break": 5, "continue": 5, "bad": 0.5}, depth=4, size=5),
             400, 5000),
            ("big", dict(kinds=['exec']), 200, 2400)],
    "C23": [("broken", 800, 10000), ("recovery", 600, 8000)],
    "C24": [("literals", 1600, 30000), ("shorttexts", 16000, 400000)],
    "C25": [("until", 400, 5000)],
    "C26": [("sources", 150, 2000)],
}
LEVEL = {p: "proof" for p in BOUNDED}

# what the proofs of all properties assume
TRUSTED = [
    "the verification condition generator in /verif/engine (its encoding of the used part of Python's semantics)",
    "z3 4.8 (back end) and its Python binding",
    "CPython 3.12: the source read from /repo is the code that runs (no monkey patching, no import hooks)",
]
COMMON = [
    "integers are mathematical (as in Python); floating point operations, str(), int(), float(), str.lower(), "
    "str.casefold() and similar library functions are deterministic functions without side effects "
    "(uninterpreted in the proofs)",
    "the contract of a callee is used at its calls (verified separately where it is a function of /repo, "
    "assumed for the ANTLR runtime, functools, re, codecs and user-supplied managers)",
    "recursion and memory limits of the interpreter and KeyboardInterrupt are not modelled",
    "termination is not proved (partial correctness); the bounded runs would notice a hanging case",
]
EXTRA = {
    "C23": ["ANTLR marks a node whose text could not be parsed with an exception; the parser's repair of a single "
            "stray or missing token is part of the parser"],
    "C24": ["string literals: the two regular expressions and the unicode_escape codec of visitString are "
            "covered by bounded cases only"],
}
NOTE = {}
