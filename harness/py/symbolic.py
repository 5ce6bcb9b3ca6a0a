"""The real symbolic expressions (see harness/cpp/symbolic.cpp)."""
import json
import struct
from fractions import Fraction

from lib import cxx

SRC = ["mllm/compile/symbolic_expr/Parser.cpp", "mllm/compile/symbolic_expr/Eval.cpp"]


def build():
    return cxx.build("symbolic", ["symbolic.cpp"], SRC)


def fits(want, value, whole):
    """want: [k, n, d]; value, whole: what eval and evalAsInt gave."""
    err = isinstance(value, dict)
    if want["k"] == "err":
        return err and isinstance(whole, dict)
    if want["k"] == "any":
        return True
    if err or isinstance(value, str) or isinstance(whole, dict):
        return False
    q = Fraction(want["n"], want["d"])
    if want["k"] == "exact":
        return Fraction(value) == q and whole == int(q)
    return abs(value - float(q)) <= 1e-5 * abs(float(q)) + (0.1 if want["k"] == "rough" else 0)


def fault(want, got):
    """What is wrong, or None."""
    if not want["ok"]:
        return None if "error" in got else f"accepted as {got['str']}"
    if "error" in got:
        return f"rejected: {got['error']}"
    for what, g in (("", got), (f"printed as {got['str']} and read again: ", got["again"])):
        if "error" in g:
            return what + g["error"]
        if g["static"] != want["static"]:
            return f"{what}static is {g['static']}"
        for i, (w, x) in enumerate(zip(want["values"], g["values"])):
            if not fits(w, x["value"], x["int"]):
                return f"{what}assignment {i + 1}: {w['n']}/{w['d']} ({w['k']}) expected, got {x['value']}, as integer {x['int']}"
    if got["again"]["str"] != got["str"]:
        return f"printed as {got['str']}, read again and printed as {got['again']['str']}"
    return None


def text(tokens, variant):
    out = ""
    for i, t in enumerate(tokens):
        t = t.replace("@", "\u00e9")
        word = t[0].isalnum() or t[0] in "._$@" or not t.isascii()
        if out and (((out[-1].isalnum() or out[-1] in "._$@" or not out[-1].isascii()) and word) or variant % 3 == 2 or (variant % 3 == 1 and (i + variant) % 2)):
            out += " " * (1 + variant % 2)
        out += t
    return (" " if variant % 7 == 5 else "") + out + (" " if variant % 5 == 3 else "")


class Sym:
    def __init__(self, d, envs):
        self.d, self.envs = d, envs
        self.n = 0
        self.d.ask(json.dumps(dict(op="new")))

    def ask(self, **q):
        return self.d.ask(json.dumps(dict(q, envs=self.envs)))

    def parse(self, tokens, wrap):
        self.n += 1
        s = text(tokens, sum(map(len, tokens)) + self.n)
        s = "(" * wrap + s + ")" * wrap
        return s, self.ask(op="parse", text=s)

    def do(self, op, args):
        return self.ask(op=op, **args)
