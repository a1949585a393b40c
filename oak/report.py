"""Result object shared by all checks: findings, coverage, known findings, evidence."""
import json, os, time, fnmatch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Finding:
    """One violation.  `key` identifies it without line numbers; `chars` (optional) is the set
    of input characters it concerns; `group`/`site` let a finding follow code that was moved."""

    def __init__(self, rule, key, msg, file="", line=0, chars=None, group=None, site=None):
        self.rule, self.key, self.msg, self.file, self.line = rule, key, msg, file, line
        self.chars, self.group, self.site = chars, group, site

    def show(self):
        return "%s:%s [%s] %s" % (self.file, self.line, self.rule, self.msg)


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.coverage = {}
        self.notes = []

    def add(self, *a, **k):
        self.findings.append(Finding(*a, **k))

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def floor(self, name, least):
        """an obligation population must not silently shrink"""
        n = self.coverage.get(name, 0)
        if n < least:
            self.add("coverage-floor", "floor:" + name, "only %d %s found, at least %d expected: the analysis lost its anchors" % (n, name, least))


def iv_sub(a, b):
    """interval set a is contained in b"""
    for lo, hi in a:
        if not any(l <= lo and hi <= h for l, h in b):
            return False
    return True


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get("property") == prop and k.get("status") != "fixed"]


def split_known(res):
    """-> (fresh findings, list of (known entry, findings))"""
    known = load_known(res.prop)
    exact = {k["key"]: k for k in known if "group" not in k}
    fresh, hit = [], {}
    grouped = {}
    for f in res.findings:
        if f.group is None:
            if f.key in exact:
                hit.setdefault(f.key, []).append(f)
            else:
                fresh.append(f)
        else:
            grouped.setdefault(f.group, []).append(f)
    kgroups = {}
    for k in known:
        if "group" in k:
            kgroups.setdefault(k["group"], []).append(k)
    for g, fs in grouped.items():
        # sites: a function within the group; a known entry lists how many distinct places in it
        # are affected and for which characters
        ks = {k["site"]: k for k in kgroups.get(g, [])}
        by = {}
        for f in fs:
            by.setdefault(f.site, []).append(f)
        pending = []
        for s, l in by.items():
            k = ks.get(s)
            for i, f in enumerate(sorted(l, key=lambda f: f.line)):
                # Known and within its recorded extent?
                if k is not None and i < k["count"] and (f.chars is None or k.get("chars") is None or iv_sub(f.chars, k["chars"])):
                    hit.setdefault(k["key"], []).append(f)
                else:
                    pending.append(f)
        # code that was moved into another function: places the known sites no longer report
        spare = []
        for s, k in ks.items():
            miss = k["count"] - len([f for f in by.get(s, []) if f in hit.get(k["key"], [])])
            spare += [k] * miss
        for f in pending:
            for k in spare:
                if f.chars is None or k.get("chars") is None or iv_sub(f.chars, k["chars"]):
                    spare.remove(k)
                    hit.setdefault(k["key"], []).append(f)
                    break
            else:
                fresh.append(f)
    byk = {k["key"]: k for k in known}
    return fresh, [(byk[k], fs) for k, fs in hit.items()]


def finish(res, tier, seed, level, t0, explanation, out_dir=None):
    fresh, hit = split_known(res)
    for k, fs in sorted(hit, key=lambda x: x[0]["key"]):
        print("KNOWN-FINDING: property=%s %s" % (res.prop, k["what"]))
    cov = dict(res.coverage)
    cov["explanation"] = explanation
    cov["reported"] = len(res.findings)
    cov["known_findings_seen"] = sum(len(fs) for _, fs in hit)
    if res.notes:
        cov["scope_limits"] = res.notes[:200]
        cov["scope_limit_count"] = len(res.notes)
    ev = {"property": res.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 1),
          "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", res.prop + ".json"), "w"), indent=1)
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", res.prop + ".txt")
        with open(rp, "w") as f:
            for x in fresh:
                f.write(x.show() + "\n    key: " + x.key + "\n")
        for x in fresh[:40]:
            print("  " + x.show())
        print("VIOLATION property=%s replay=%s" % (res.prop, rp))
        return 1
    print("OK property=%s %s" % (res.prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    return 0
