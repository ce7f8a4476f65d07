"""Reference model of which directed links are open, closed or gone."""


class Net:
    def __init__(self, w):
        self.country = {l["name"]: l["country"] for l in w["locs"]}
        self.edges = []  # [start, end, distance, "open"/"closed", forced]
        for k in w["links"]:
            a, b = k["a"], k["b"]
            if k["forced"] == 2:
                a, b = b, a
            self.edges.append([a, b, k["dist"], "open", k["forced"] != 0])
            self.edges.append([b, a, k["dist"], "open", False])

    def _flip(self, sel, frm, to):
        n = 0
        for ed in list(self.edges):
            if ed[3] == frm and sel(ed[0], ed[1]):
                if to == "gone":
                    self.edges.remove(ed)
                else:
                    ed[3] = to
                n += 1
        return n

    @staticmethod
    def _pair(a, b, twoway):
        return lambda s, d: (s, d) == (a, b) or (twoway and (s, d) == (b, a))

    def close_link(self, a, b, twoway=True):
        return self._flip(self._pair(a, b, twoway), "open", "closed")

    def reopen_link(self, a, b, twoway=True):
        return self._flip(self._pair(a, b, twoway), "closed", "open")

    def remove_link(self, a, b, twoway=True):
        return self._flip(self._pair(a, b, twoway), "open", "gone")

    @staticmethod
    def _at(name, twoway):
        return lambda s, d: d == name or (twoway and s == name)

    def close_location(self, name, twoway=True):
        return self._flip(self._at(name, twoway), "open", "closed")

    def reopen_location(self, name, twoway=True):
        return self._flip(self._at(name, twoway), "closed", "open")

    def _border(self, a, b, twoway):
        c = self.country
        return lambda s, d: (c[s], c[d]) == (a, b) or (twoway and (c[s], c[d]) == (b, a))

    def close_border(self, a, b, twoway=True):
        return self._flip(self._border(a, b, twoway), "open", "closed")

    def reopen_border(self, a, b, twoway=True):
        return self._flip(self._border(a, b, twoway), "closed", "open")

    def force(self, a, b, value):
        for ed in self.edges:
            if (ed[0], ed[1]) == (a, b) and ed[3] == "open":
                ed[4] = value

    def apply(self, ev):
        """Apply an event of simrun; other events are ignored."""
        f = getattr(self, ev[0], None)
        if ev[0] in ("close_link", "reopen_link", "remove_link", "close_location", "reopen_location",
                     "close_border", "reopen_border"):
            return f(*ev[1:])
        return None

    def state(self):
        o = sorted((s, d, x) for s, d, x, st, _ in self.edges if st == "open")
        c = sorted((s, d, x) for s, d, x, st, _ in self.edges if st == "closed")
        return o, c

    def is_open(self, s, d):
        return any(ed[0] == s and ed[1] == d and ed[3] == "open" for ed in self.edges)

    def adj(self):
        g = {}
        for s, d, x, st, _ in self.edges:
            g.setdefault(s, [])
            if st == "open":
                g[s].append((d, x))
        return g
