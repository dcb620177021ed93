"""Validation data files (data_layout.csv and friends) written from a case, and an independent reader of the case."""
import os
from datetime import date, timedelta

from hypothesis import strategies as st

import geo

from flee.datamanager import handle_refugee_data


def iso(start, day):
    y, m, d = map(int, start.split("-"))
    return (date(y, m, d) + timedelta(days=day)).isoformat()


@st.composite
def series(draw, days, vals=None, max_len=6, neg=True, first=None):
    """Sorted list of [day, value]."""
    lo = -20 if neg else 0
    if draw(st.integers(0, 9)) == 0:
        max_len = days + 25         # (nearly) daily entries
    ds = draw(st.lists(st.integers(lo, days + 5), min_size=1, max_size=max_len, unique=True))
    if draw(st.booleans()) and 0 not in ds:
        ds.append(0)
    ds = sorted(ds)
    v = vals if vals is not None else st.sampled_from([0, 1, 2, 3, 5, 10, 17, 50]) | st.integers(0, 60)
    out = [[d, draw(v)] for d in ds]
    if first is not None:
        out = [[d, first] for d, _ in out[:1]] + out[1:]
    return out


STARTS = ("2012-02-29", "2013-12-01", "2016-02-20", "2010-01-01", "2023-10-25")


def write(dirname, start, tables, header=False, multi=None):
    """tables: list of [name, series]; the first is the total."""
    os.makedirs(dirname, exist_ok=True)
    rows = [["#name", "file"]]
    for k, (name, ser) in enumerate(tables):
        fn = "d%d.csv" % k
        body = [["Date", "Individuals"]] if header else []
        body += [[iso(start, d), str(v)] for d, v in ser]
        if k % 2:
            body.append(["#" + iso(start, 3), "999999"])
        geo.w(os.path.join(dirname, fn), body)
        rows.append([name, fn])
    geo.w(os.path.join(dirname, "data_layout.csv"), rows)


def table(dirname, start, scale=1, start_empty=False):
    return handle_refugee_data.RefugeeTable(csvformat="generic", data_directory=dirname, start_date=start,
                                            data_layout="data_layout.csv", population_scaledown_factor=scale,
                                            start_empty=start_empty)


class Ref:
    """What the files say."""

    def __init__(self, tables, scale=1, start_empty=False):
        self.t = {n: [(d, v / scale) for d, v in ser] for n, ser in tables}
        self.order = [n for n, _ in tables]
        self.start_empty = start_empty

    def interp(self, name, day):
        s = self.t[name]
        if day <= s[0][0]:
            return int(s[0][1])
        for (d0, v0), (d1, v1) in zip(s, s[1:]):
            if d0 <= day < d1:
                return int(v0 + float(day - d0) / float(d1 - d0) * float(v1 - v0))
        return int(s[-1][1])

    def step(self, name, day):
        s = self.t[name]
        v = s[0][1]
        for d, x in s:
            if d <= day:
                v = x
        return int(v)

    def field(self, name, day, full=True):
        f = self.interp if full else self.step
        v = f(name, day)
        return v - f(name, 0) if self.start_empty else v

    def total(self, day, from_camps, full=True):
        if from_camps:
            return sum(self.field(n, day, full) for n in self.order[1:])
        return self.field(self.order[0], day, full)

    def diff(self, day, from_camps, full=True):
        if day == 0:
            return 0 if self.start_empty else self.total(0, from_camps, full)
        return self.total(day, from_camps, full) - self.total(day - 1, from_camps, full)
