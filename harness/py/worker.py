"""Evaluates one Python program per line and describes what it returned, for c23.rs.

Request: a line with the number of programs, then that many lines. A program is a list of
statements and a final expression, separated by \x1e (newlines inside are \x1f).
Answer: one line per program, tokens separated by \x1d.
"""
import ctypes
import os
import struct
import sys
import threading

ctypes.CDLL(None).prctl(1, 9)
inp = os.fdopen(os.dup(0), "r", encoding="utf-8", newline="\n")
out = os.fdopen(os.dup(1), "w", encoding="utf-8", newline="\n", errors="backslashreplace")
null = os.open(os.devnull, os.O_RDWR)
for fd in (0, 1, 2):
    os.dup2(null, fd)

import numpy as np
import symb_anafis as sa
from symb_anafis import symb_anafis as _ext

sa.simplify('sin(x)+x'), sa.diff('sin(x)*x', 'x')  # the table of built-in names is made on first use

P1 = {"x": 0.7, "y": 1.3, "z": 0.4, "a": 2.1, "alpha": 1.7, "b": 0.9}
P2 = {"x": -1.2, "y": 0.35, "z": 2.6, "a": -0.8, "alpha": 0.6, "b": 1.9}


def bits(v):
    v = float(v)
    return "nan" if v != v else struct.pack(">d", v).hex()


def at(e, p):
    r = e.evaluate(p)
    return bits(float(r)) if r.is_number() else "?"


def show(v, o):
    if v is None:
        o.append("N")
    elif isinstance(v, bool) or type(v) is np.bool_:
        o += ["B", "1" if v else "0"]
    elif isinstance(v, int):
        o += ["I", str(v)]
    elif isinstance(v, float):
        o += ["F", bits(v)]
    elif isinstance(v, str):
        o += ["T", v]
    elif isinstance(v, sa.Expr):
        o += ["E", str(v), v.to_latex(), v.to_unicode(), at(v, P1), at(v, P2)]
    elif isinstance(v, sa.Symbol):
        n = v.name()
        o += ["S", "\x1a" if n is None else n]
    elif isinstance(v, sa.Dual):
        o += ["D", bits(v.val), bits(v.eps)]
    elif isinstance(v, (list, tuple)):
        o += ["L", str(len(v))]
        for w in v:
            show(w, o)
    elif isinstance(v, (set, frozenset)):
        o += ["Z", str(len(v))]
        for w in sorted(v):
            show(w, o)
    elif isinstance(v, np.ndarray) and v.dtype == np.float64:
        o += ["A", "x".join(map(str, v.shape)), str(v.size)]
        o += [bits(w) for w in v.ravel()]
    else:
        o += ["O", type(v).__name__]


def tree(e):
    w = e.view()
    k = w.children
    flags = [w.is_number, w.is_symbol, w.is_sum, w.is_product, w.is_div, w.is_pow, w.is_function, w.is_derivative]
    same = len(w) == len(k) and all(w[i] == k[i] and w[i - len(k)] == k[i] for i in range(len(k)))
    for i in (len(k), -len(k) - 1):
        try:
            w[i]
            same = False
        except IndexError:
            pass
    return [w.kind, w.value, w.name, w.derivative_var, w.derivative_order, flags.index(True), sum(flags), same,
            [tree(c) for c in k]]


def th(f):
    """f() on a thread of its own."""
    r = []

    def go():
        try:
            r.append((True, f()))
        except BaseException as e:
            r.append((False, e))

    t = threading.Thread(target=go)
    t.start()
    t.join()
    ok, v = r[0]
    if ok:
        return v
    raise v


def attempt(f):
    """f(), or None if it raises an ordinary exception."""
    try:
        return f()
    except Exception:
        return None


class Boom(Exception):
    pass


def boom(args):
    raise Boom("boom")


BASE = {n: getattr(_ext, n) for n in dir(_ext) if not n.startswith("_")}
BASE.update(np=np, sa=sa, ext=_ext, tree=tree, th=th, attempt=attempt, boom=boom, Boom=Boom, ExprView=_ext.ExprView)


def run(src):
    ns = dict(BASE)
    parts = src.replace("\x1f", "\n").split("\x1e")
    o = []
    try:
        for s in parts[:-1]:
            exec(s, ns)
        show(eval(parts[-1], ns), o)
    except Exception as e:
        o = ["X", type(e).__name__, str(e)]
    except BaseException as e:
        o = ["P", type(e).__name__, str(e)]
    return "\x1d".join(o).replace("\n", "\x1f").replace("\r", " ")


while True:
    head = inp.readline()
    if not head:
        break
    for line in [inp.readline() for _ in range(int(head))]:
        out.write(run(line.rstrip("\n")) + "\n")
    out.flush()
