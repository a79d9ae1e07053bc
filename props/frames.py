"""Shared by the data frame properties."""
import numpy as np
import pandas as pd

REQUIRED = ["model", "scenario", "region", "variable", "unit"]


def column(h, xs):
    """A metadata column."""
    return pd.Series(h.objs(list(xs)), dtype=object, name="column")


def wild(h, pattern, value):
    """Does the value equal the pattern, in which '*' stands for any text?"""
    p = [h.code(pattern, i) for i in range(h.len(pattern))]
    v = [h.code(value, i) for i in range(h.len(value))]
    row = [True] + [False] * len(v)
    for c in p:
        new = []
        for j in range(len(v) + 1):
            star = h.or_(row[j], new[j - 1]) if j else row[j]
            same = h.and_(c == v[j - 1], row[j - 1]) if j else False
            new.append(h.or_(h.and_(c == ord("*"), star), h.and_(h.not_(c == ord("*")), same)))
        row = new
    return row[-1]


def make(h, values, times, meta, cls="ScmDataFrame"):
    """A frame of the given columns of values at the given seconds; meta: name -> list (one per timeseries)."""
    cols = {k: ["a_" + k] if k != "unit" else ["K"] for k in REQUIRED}
    cols.update({k: list(v) for k, v in meta.items()})
    sd = h.mod("scmdataframe")
    rows = [[col[i] for col in values] for i in range(len(times))]
    return sd.ScmDataFrame(h.matrix(rows), columns=cols, index=h.dts([h.dt64_of(t) for t in times]))


def isnan(x):
    return x is None or isinstance(x, float) and x != x


def missing(x):
    """Missing metadata."""
    return x is None or isinstance(x, float) and x != x


def read(h, df, label="frame"):
    """The content of a frame: (list of metadata dicts, list of seconds, rows of values), after checking that its parts fit."""
    meta = df.meta
    names = list(meta.columns)
    metas = [dict(zip(names, row)) for row in meta.values.tolist()]
    tp = df.time_points
    ts = df.timeseries()
    h.check(len(df) == len(metas), label + ": length")
    h.check(ts.shape == (len(metas), len(tp)), label + ": as many values as metadata and times")
    h.check(list(ts.index.names) == names, label + ": metadata names")
    secs = [h.seconds(t) for t in tp]
    h.check(len(list(ts.columns)) == len(secs) == len(df["time"]), label + ": as many times")
    for a, b, c in zip(secs, ts.columns, df["time"]):
        h.check(h.and_(a == h.seconds(b), a == h.seconds(c)), label + ": times agree")
    for m, key in zip(metas, list(ts.index)):
        h.check(all(x == m[n] or missing(x) and missing(m[n]) for n, x in zip(names, key)), label + ": metadata agree")
    v, w = ts.values, df.values
    rows = [[v[i][j] for j in range(len(secs))] for i in range(len(metas))]
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            h.check(isnan(x) and isnan(w[i][j]) if isnan(x) or isnan(w[i][j]) else x == w[i][j], label + ": values agree")
    return metas, secs, rows


def same_meta(a, b):
    return set(a) == set(b) and all(a[k] == b[k] or missing(a[k]) and missing(b[k]) for k in a)


def same(h, a, b, label):
    """Two contents are equal, in order."""
    h.check(len(a[0]) == len(b[0]) and all(same_meta(x, y) for x, y in zip(a[0], b[0])), label + ": metadata")
    h.check(len(a[1]) == len(b[1]), label + ": number of times")
    for x, y in zip(a[1], b[1]):
        h.eq(x, y, label + ": times")
    for r, s in zip(a[2], b[2]):
        for x, y in zip(r, s):
            if isnan(x) or isnan(y):
                h.check(isnan(x) and isnan(y), label + ": missing values")
            else:
                h.eq(x, y, label + ": values")


def gaps(h, name, n, m, where=None):
    """Values of n timeseries at m times, missing at the places chosen of those given."""
    rows = [[h.real("{}{}_{}".format(name, i, j)) for j in range(m)] for i in range(n)]
    for i, j in where or []:
        if h.flag("{}gap{}_{}".format(name, i, j)):
            rows[i][j] = float("nan")
    return rows
