"""Random validation data (data_layout.csv and its tables) with a reference reader."""
import datetime
import os
from fractions import Fraction


def date(start, day):
    d = datetime.datetime.strptime(start, "%Y-%m-%d") + datetime.timedelta(days=day)
    return d.strftime("%Y-%m-%d")


def series(rng, horizon, early=True):
    n = rng.randint(1, 6)
    days = sorted(rng.sample(range(-10 if early and rng.random() < 0.4 else 0, horizon + 10), n))
    kind = rng.choice(["up", "any", "down", "flat"])
    v = rng.randint(0, 3000)
    out = []
    for d in days:
        out.append([d, v])
        step = rng.randint(0, 2000)
        v = {"up": v + step, "any": rng.randint(0, 4000), "down": max(0, v - step), "flat": v}[kind]
    return out


def write_table(path, rows, start, rng=None, header=True):
    with open(path, "w", encoding="utf-8") as f:
        if header:
            f.write(rng.choice(["DateTime,pop\n", "Date,count\n", "#date,count\n"]) if rng else "#date,count\n")
        for d, v in rows:
            f.write("%s,%d\n" % (date(start, d), v))
            if rng and rng.random() < 0.1:
                f.write("#%s,17\n" % date(start, d))
            if rng and rng.random() < 0.05:
                f.write("%s,\n" % date(start, d))


class Data:
    """camps: {name: [series, ...]} (several series are added up)."""

    def __init__(self, rng, camps, start="2015-03-01", horizon=60, scale=1, multi=True, early=True):
        self.start = start
        self.scale = scale
        self.camps = {}
        for c in camps:
            k = 1 if not multi or rng.random() < 0.8 else 2
            self.camps[c] = [series(rng, horizon, early) for _ in range(k)]
        self.total = series(rng, horizon, early)

    def write(self, d, rng=None):
        os.makedirs(d, exist_ok=True)
        lay = ["total,refugees.csv"]
        write_table(os.path.join(d, "refugees.csv"), self.total, self.start, rng)
        for i, (c, ss) in enumerate(self.camps.items()):
            fs = []
            for j, s in enumerate(ss):
                fs.append("camp%d_%d.csv" % (i, j))
                write_table(os.path.join(d, fs[-1]), s, self.start, rng)
            lay.append(",".join([c] + fs))
            if rng and rng.random() < 0.1:
                lay.append("#comment,nothing.csv")
        with open(os.path.join(d, "data_layout.csv"), "w", encoding="utf-8") as f:
            f.write("\n".join(lay) + "\n")

    @staticmethod
    def exact(rows, day, scale=1):
        """Linear interpolation between records, constant outside."""
        if day <= rows[0][0]:
            return Fraction(rows[0][1], scale)
        for (d0, v0), (d1, v1) in zip(rows, rows[1:]):
            if d0 <= day < d1:
                return Fraction(v0, scale) + Fraction((v1 - v0) * (day - d0), (d1 - d0) * scale)
        return Fraction(rows[-1][1], scale)

    def possible(self, rows, day):
        """Integers that count as the truncated interpolation (floating point may fall below an integer)."""
        x = self.exact(rows, day, self.scale)
        lo = int(x)
        out = {lo}
        if abs(x - round(x)) < Fraction(1, 10**6):
            out |= {round(x), round(x) - 1 if x > 0 else round(x)}
        return out
