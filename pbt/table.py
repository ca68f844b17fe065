"""Tables of raw (not yet binary) columns: generation, and what a stated binary test means for a row."""
import numpy as np
import pandas as pd
from . import gen as G

WORDS = ["a", "b", "red", "blue", "it's", "x,y", "two words", "a <= b", "1", "", "ä", "A", "[q]", "in"]
KINDS = ["bin", "num", "num", "int", "cat", "code"]


def numbers(rng, n):
    style = G.pick(rng, ["normal", "ties", "steps", "large", "small", "skew", "constant", "pair"])
    if style == "normal": v = rng.normal(0, 10, n)
    elif style == "ties": v = rng.choice(rng.normal(0, 3, G.ri(rng, 2, 7)), n)
    elif style == "steps": v = rng.integers(-6, 7, n) / 2
    elif style == "large": v = rng.normal(0, 1, n) * 1e6 + 1e5
    elif style == "small": v = rng.normal(0, 1, n) * 1e-5
    elif style == "skew": v = np.where(rng.random(n) < 0.8, 3.0, rng.normal(0, 10, n))
    elif style == "constant": v = np.full(n, G.pick(rng, [3.0, -2.0, 0.5]))
    else: v = rng.choice([-3.0, -1.0], n)
    return [float(x) for x in (np.round(v, G.ri(rng, 0, 3)) if style in ("normal", "skew") else v)]


def column(rng, kind, n, m):
    """n training and m later values."""
    if kind == "bin":
        v = [int(x) for x in (rng.random(n + m) < rng.uniform(0.1, 0.9))]
        if G.chance(rng, 0.1): v[:n] = [G.ri(rng, 0, 1)] * n
        return v[:n], v[n:]
    if kind in ("num", "int"):
        v = numbers(rng, n) if kind == "num" else [int(x) for x in rng.integers(-4, G.pick(rng, [3, 30]), n)]
        u, later = sorted(set(v)), []
        for _ in range(m):
            a = G.pick(rng, u)
            b = G.pick(rng, ["same", "mid", "near", "far"])
            x = a if b == "same" else (a + G.pick(rng, u)) / 2 if b == "mid" else a + float(rng.normal()) * (abs(a) + 1) * 0.1 if b == "near" \
                else float(rng.normal()) * (abs(a) + 1) * 100
            later.append(int(round(x)) if kind == "int" else float(x))
        return v, later
    vals = [WORDS[j] for j in rng.permutation(len(WORDS))[:G.ri(rng, 1, 8)]] if kind == "cat" else [int(x) for x in rng.permutation(12)[:G.ri(rng, 1, 8)] - 2]
    w = rng.random(len(vals)) ** G.pick(rng, [0.5, 2, 6]) + 1e-3
    v = [vals[int(j)] for j in rng.choice(len(vals), n, p=w / w.sum())]
    new = vals + ["zzz", "unseen"] if kind == "cat" else vals + [77, -50]
    return v, [G.pick(rng, new) for _ in range(m)]


def table(rng, n, m, kinds=KINDS, F=None):
    """{"cols": [[name, kind]], "R": rows, "later": rows}"""
    cols, tr, la = [], [], []
    for j in range(F or G.ri(rng, 1, 5)):
        k = G.pick(rng, kinds)
        a, b = column(rng, k, n, m)
        cols.append([G.pick(rng, ["c%d", "c%d", "col %d", "x%d_é", "f_%d"]) % j, k])
        tr.append(a); la.append(b)
    return {"cols": cols, "R": [list(r) for r in zip(*tr)], "later": [list(r) for r in zip(*la)]}


def data(tab, rows, form, perm=None, index=None):
    """The rows as the user passes them."""
    cols = tab["cols"]
    if form == "frame":
        d = pd.DataFrame({nm: pd.Series([r[j] for r in rows], dtype={"bin": int, "int": int, "code": int, "num": float, "cat": object}[k])
                          for j, (nm, k) in enumerate(cols)})
        if index is not None: d.index = index
        return d[[cols[j][0] for j in perm]] if perm is not None else d
    if form == "object":
        a = np.empty((len(rows), len(cols)), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r): a[i, j] = v
        return a
    return np.array(rows, dtype=float).reshape(len(rows), len(cols))


def categorical(tab, form):
    """The columns that the user has to name as categorical."""
    if form == "frame": return [nm for nm, k in tab["cols"] if k == "code"]
    return [j for j, (nm, k) in enumerate(tab["cols"]) if k in ("code", "cat")]


def is_binary(vals):
    return not set(vals) - {0, 1}


def quoted(v):
    return ["'%s'" % v, "'%s'" % v.replace("'", "\\'")] if isinstance(v, str) else [str(v)]


def column_of(tab, name):
    """Index of the raw column that the name of a binary column refers to."""
    best = [j for j, (nm, k) in enumerate(tab["cols"]) if name == nm or any(name.startswith(nm + s) for s in (" <= ", " == ", " in ["))]
    return max(best, key=lambda j: len(tab["cols"][j][0])) if best else None


def tokens(text, vals):
    """True if text is a comma-separated list of exactly the given values, in any order."""
    if not vals: return text == ""
    for k, v in enumerate(vals):
        for q in quoted(v):
            if text.startswith(q):
                rest = text[len(q):]
                if not vals[:k] + vals[k + 1:]: return rest == ""
                if rest.startswith(",") and tokens(rest[1:], vals[:k] + vals[k + 1:]): return True
    return False


def holds(name, col, v, seen):
    """Truth of the named test for the value v of that column; None if the name states no test."""
    if name == col: return v == 1
    if name.startswith(col + " <= "):
        return float(v) <= float(name[len(col) + 4:])
    if name.startswith(col + " == "):
        text = name[len(col) + 4:]
        for u in seen:
            if text in quoted(u): return v == u
    return None
