#!/usr/bin/env python3
"""Reference values for C10, computed with mpmath at 40 digits. Writes harness/data/c10.txt:
   name arg.. value      (value 'undef' = outside the real domain or a pole)
Arguments are exact doubles. Run with python3-vt; the table is committed."""
from mpmath import mp, mpf
import mpmath as m
mp.dps = 40
out = []
def put(name, args, fn):
    a = [mpf(x) for x in args]
    try:
        v = fn(*a)
        if isinstance(v, m.mpc):
            v = v.real if abs(v.imag) <= mpf(10)**-30 * (1 + abs(v.real)) else None
        if v is not None and (m.isnan(v) or m.isinf(v)):
            v = None
    except (ZeroDivisionError, ValueError, m.libmp.libhyper.NoConvergence):
        v = None
    if v is not None and (abs(v) > mpf('1e300') or (v != 0 and abs(v) < mpf('1e-300'))):
        return
    out.append(" ".join([name] + [repr(float(x)) for x in args] + ["undef" if v is None else m.nstr(v, 20)]))

def rng(a, b, k):
    # dyadic-friendly grid, endpoints included
    return [a + (b - a) * i / k for i in range(k + 1)]
small = [1e-12, 3e-9, 1e-6, 1e-3, 0.01, 0.1]
wide = sorted(set(rng(-12, 12, 192) + small + [-s for s in small] + [20.25, -20.25, 33.3, -33.3, 57.1, -57.1, 100.5, -100.5, 709.0, -709.0, 1e4 + 0.3, -1e4 - 0.3]))
unit = sorted(set(rng(-1.5, 1.5, 120) + small + [-s for s in small] + [0.999, -0.999, 0.999999, 1.000001]))
half = m.pi / 2
def real_pow(x): return x
def dom(cond, f):
    return lambda *a: f(*a) if cond(*a) else None
F = {
 'sin': m.sin, 'cos': m.cos, 'tan': m.tan, 'cot': dom(lambda x: x != 0, m.cot), 'sec': m.sec, 'csc': dom(lambda x: x != 0, m.csc),
 'atan': m.atan, 'acot': lambda x: half - m.atan(x), 'sinh': m.sinh, 'cosh': m.cosh, 'tanh': m.tanh,
 'coth': dom(lambda x: x != 0, m.coth), 'sech': m.sech, 'csch': dom(lambda x: x != 0, m.csch),
 'asinh': m.asinh, 'acsch': dom(lambda x: x != 0, m.acsch), 'exp': m.exp, 'exp_polar': m.exp,
 'ln': dom(lambda x: x > 0, m.ln), 'log10': dom(lambda x: x > 0, lambda x: m.log(x, 10)), 'log2': dom(lambda x: x > 0, lambda x: m.log(x, 2)),
 'sqrt': dom(lambda x: x >= 0, m.sqrt), 'cbrt': lambda x: m.sign(x) * m.cbrt(abs(x)), 'abs': abs,
 'signum': dom(lambda x: x != 0, m.sign), 'floor': m.floor, 'ceil': m.ceil, 'sinc': m.sinc,
 'round': lambda x: m.sign(x) * m.floor(abs(x) + mpf('0.5')),
 'erf': m.erf, 'erfc': m.erfc,
 'acosh': dom(lambda x: x >= 1, m.acosh), 'acoth': dom(lambda x: abs(x) > 1, m.acoth), 'asec': dom(lambda x: abs(x) >= 1, m.asec), 'acsc': dom(lambda x: abs(x) >= 1, m.acsc),
 'gamma': m.gamma, 'digamma': m.digamma,
}
pole = lambda x: not (x <= 0 and x == m.floor(x))
for n, f in F.items():
    g = dom(pole, f) if n in ('gamma', 'digamma') else f
    for x in wide:
        if n == 'signum' and x == 0: continue  # both 0 and f64's 1 are in use
        if n in ('gamma',) and abs(x) > 160: continue
        if n in ('digamma',) and x < -60: continue
        if n in ('sin', 'cos', 'tan', 'cot', 'sec', 'csc', 'sinc') and abs(x) > 800: continue
        put(n, [x], g)
for n, f in {'asin': dom(lambda x: abs(x) <= 1, m.asin), 'acos': dom(lambda x: abs(x) <= 1, m.acos), 'atanh': dom(lambda x: abs(x) < 1, m.atanh),
             'asech': dom(lambda x: 0 < x <= 1, m.asech)}.items():
    for x in unit: put(n, [x], f)
for x in [140.5, 143.0, 150.0, 165.5, 170.0, 171.0]:
    put('gamma', [x], m.gamma)
for x in [i / 8 for i in range(-40, 161)] + [25.5, 80.25, 1e3, 1e6, -17.3, -63.7, -64.2, -65.9, -100.4, -1000.25]:
    for n, k in (('trigamma', 1), ('tetragamma', 2)):
        put(n, [x], dom(pole, lambda x, k=k: m.polygamma(k, x)))
    for k in range(0, 7):
        put('polygamma', [k, x], dom(lambda k, x: pole(x), lambda k, x: m.polygamma(int(k), x)))
for x in sorted(set([i / 16 for i in range(-7, 160)] + [-0.3678, -0.36, -0.35, -0.301, -0.2999, 1e-9, -1e-9, 1e-4, 25.0, 300.0, 1e5, 1e10, -0.37, -1.0])):
    put('lambertw', [x], dom(lambda x: x >= -1 / m.e, lambda x: m.lambertw(x)))
for x in sorted(set(rng(-0.98, 0.98, 98) + [0.999, -0.999, 1e-8, 0.0, 1.5, -2.0])):
    put('elliptic_k', [x], dom(lambda k: abs(k) < 1, lambda k: m.ellipk(k * k)))
    put('elliptic_e', [x], dom(lambda k: abs(k) <= 1, lambda k: m.ellipe(k * k)))
zx = [i / 8 for i in range(-80, 81)] + [1.01, 1.0625, 1.4, 1.49, 1.51, 1.6, 0.99, 0.9, 12.5, 20.25, 30.0, 49.5]
for x in zx:
    put('zeta', [x], dom(lambda s: s != 1, m.zeta))
    for k in range(0, 4):
        if k == 0 or x > -5:
            put('zeta_deriv', [k, x], dom(lambda k, s: s != 1, lambda k, s: m.zeta(s, derivative=int(k)) if k else m.zeta(s)))
bx = sorted(set([i / 4 for i in range(-60, 161)] + [0.01, 1e-3, 1e-6, 3.74, 3.76, 7.99, 8.01, 1.99, 2.01, 60.3, 95.5]))
for k in list(range(-3, 13)) + [20, 30]:
    for x in bx:
        put('besselj', [k, x], lambda n, x: m.besselj(int(n), x))
        put('bessely', [k, x], dom(lambda n, x: x > 0, lambda n, x: m.bessely(int(n), x)))
        put('besseli', [k, x], lambda n, x: m.besseli(int(n), x))
        put('besselk', [k, x], dom(lambda n, x: x > 0, lambda n, x: m.besselk(int(n), x)))
for k in list(range(-1, 13)) + [20]:
    for x in [i / 4 for i in range(-20, 21)]:
        put('hermite', [k, x], dom(lambda n, x: n >= 0, lambda n, x: m.hermite(int(n), x)))
def plm(l, mm, x):
    # Condon-Shortley, explicit from derivatives of (x^2-1)^l
    l, mm = int(l), int(mm)
    if l < 0 or abs(mm) > l or abs(x) > 1: return None
    a = abs(mm)
    s = mpf(0)
    for k in range(l // 2 + 1):
        if l - 2 * k - a < 0: continue
        c = (-1) ** k * m.binomial(l, k) * m.binomial(2 * l - 2 * k, l) / mpf(2) ** l
        p = l - 2 * k
        d = m.factorial(p) / m.factorial(p - a)
        s += c * d * x ** (p - a)
    v = (-1) ** a * (1 - x * x) ** (mpf(a) / 2) * s
    if mm < 0:
        v *= (-1) ** a * m.factorial(l - a) / m.factorial(l + a)
    return v
for l in range(-1, 7):
    for mm in range(-l - 1, l + 2):
        for x in [i / 8 for i in range(-9, 10)]:
            put('assoc_legendre', [l, mm, x], plm)
def ylm(l, mm, th, ph):
    l, mm = int(l), int(mm)
    if l < 0 or abs(mm) > l: return None
    return m.sqrt((2 * l + 1) / (4 * m.pi) * m.factorial(l - mm) / m.factorial(l + mm)) * plm(l, mm, m.cos(th)) * m.cos(mm * ph)
for l in range(-1, 5):
    for mm in range(-l - 1, l + 2):
        for th in [0.25, 1.0, 1.75, 2.75, -0.5, 4.0]:
            for ph in [0.0, 0.5, -1.25, 3.0]:
                for nm in ('ynm', 'spherical_harmonic'):
                    put(nm, [l, mm, th, ph], ylm)
for a in [i / 4 for i in range(-14, 41) if i % 3 != 1]:
    for b in [i / 4 for i in range(-10, 41, 3)] + [80.5]:
        put('beta', [a, b], dom(lambda a, b: pole(a) and pole(b) and pole(a + b), m.beta))
for y in [-3.5, -1.0, -0.25, 0.25, 1.0, 7.5, 0.0]:
    for x in [-4.0, -1.0, -0.125, 0.5, 1.0, 6.0, 0.0]:
        if y == 0 and x <= 0: continue
        put('atan2', [y, x], m.atan2)
for b in [0.1, 0.5, 0.9, 1.0, 1.25, 2.0, 2.718281828459045, 10.0, -2.0, 0.0]:
    for x in [-1.0, 0.0, 1e-6, 0.3, 1.0, 2.0, 9.5, 1000.0]:
        put('log', [b, x], dom(lambda b, x: b > 0 and b != 1 and x > 0, lambda b, x: m.log(x) / m.log(b)))
import os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "data", "c10.txt")
open(p, "w").write("\n".join(out) + "\n")
print(len(out))
