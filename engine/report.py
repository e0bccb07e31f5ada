"""Aggregated result of one check."""


class Report:
    def __init__(self, what, rule):
        self.what = what
        self.rule = rule
        self.violations = []
        self.undecided = []
        self.broken = []
        self.assumptions = []
        self.units = []          # analysed entry x configuration
        self.samples = []
        self.n = {}

    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def merge_unit(self, u, cats=None):
        """u: dict from a worker"""
        self.units.append("%s [%s]" % (u["entry"], u["config"]))
        for k, v in u["stats"].items():
            self.add(k, v)
        for v in u["viols"]:
            if cats is None or v["cat"] in cats:
                self.violations.append(v)
        for x in u["undec"]:
            self.undecided.append("%s [%s]: %s" % (u["entry"], u["config"], x))
        if u.get("error"):
            self.broken.append("%s [%s]: %s" % (u["entry"], u["config"], u["error"]))
        elif not u["stats"].get("exits") and not u["viols"] and not u["undec"]:
            self.broken.append("%s [%s]: no exit of the entry was reached (vacuous)" % (u["entry"], u["config"]))
        if len(self.samples) < 6 and u.get("sample"):
            self.samples.append(u["sample"])

    def coverage(self):
        c = {"explanation": self.what, "rule": self.rule, "units_analysed": len(self.units),
             "units": self.units[:400], "undecided": self.undecided[:60], "undecided_count": len(self.undecided)}
        c.update(self.n)
        if self.samples:
            c["samples"] = self.samples
        return c

    def summary(self):
        return "%d units, %s%s" % (len(self.units), ", ".join("%s=%s" % kv for kv in sorted(self.n.items()) if isinstance(kv[1], int)),
                                   ", %d undecided" % len(self.undecided) if self.undecided else "")
