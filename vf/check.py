"""What every check shares: its scratch directory, its seed and tier, the table of known
findings, violations with replay files, and the evidence file."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time

from . import build as B
from . import run as R

KNOWN = os.path.join(B.VERIF, "known_findings.txt")
MAX_VIOLATIONS = 3


def load_known():
    """known: property=<id> key=<key> <what fails>"""
    out = {}
    try:
        for l in open(KNOWN, encoding="utf-8"):
            if l.startswith("known: "):
                w = l[7:].split(None, 2)
                out[(w[0].split("=", 1)[1], w[1].split("=", 1)[1])] = w[2].strip() if len(w) > 2 else ""
    except OSError:
        pass
    return out


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.hung = False
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.events = collections.Counter()
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.violations = 0
        self.inconclusive = 0
        self.known_hit = {}
        self.known = load_known()
        self.assumptions = []
        self.floors = []
        self._runners = []

    # ---- inputs
    def n(self, quick, thorough=None):
        """case counts by tier"""
        return (thorough if thorough is not None else quick * 20) if self.thorough else quick

    def rng(self, *k):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, "/".join(map(str, k))))

    def build(self, variant):
        return B.build(variant)

    def runner(self, variant="plain", **kw):
        d = self.dir()
        try:
            r = R.Runner(self.build(variant), d, **kw)
        except R.StartError as e:
            self.violation("start", "the runtime does not start (%s build)" % variant, str(e))
            raise Stop()
        self._runners.append(r)
        return r

    def dir(self):
        return tempfile.mkdtemp(dir=self.scratch)

    # ---- observations
    def case(self, ident, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(ident.encode("utf-8", "replace") if isinstance(ident, str) else ident,
                                digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                if sample is not None and (len(self.samples) < 3 or (len(self.seen) & (len(self.seen) - 1) == 0
                                                                    and len(self.samples) < 12)):
                    self.samples.append(str(sample)[:1500])

    def count(self, k, n=1):
        self.events[k] += n

    def floor(self, k, n):
        """the run observed nothing unless event k happened n times"""
        self.floors.append((k, n))

    def full(self):
        return self.violations >= MAX_VIOLATIONS or (self.hung and self.violations > 0)

    def violation(self, key, msg, text=""):
        if (self.prop, key) in self.known:
            if key not in self.known_hit:
                print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, key, self.known[(self.prop, key)]), flush=True)
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.violations += 1
        if self.violations > MAX_VIOLATIONS:
            return
        d = os.path.join(B.VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.prop, self.violations))
        with open(p, "w", encoding="utf-8", errors="replace") as f:
            f.write("property %s, tier %s, seed %d\nkey: %s\n%s\n\n%s\n" % (self.prop, self.tier, self.seed, key, msg, text))
        print("%s: %s [%s]" % (self.prop, msg, key))
        for l in text[-1500:].split("\n"):
            print("    " + l)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def gcstats(self):
        tot = collections.Counter()
        for r in self._runners:
            tot.update(R.gcstats(r.scratch))
        return dict(tot)

    def finish(self, rule):
        for r in self._runners:
            r.close()
        for k, v in self.gcstats().items():
            self.events["gc." + k] = v
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.seen), "rule": rule,
               "samples": self.samples or ["-"], "observed": dict(sorted(self.events.items())),
               "inconclusive": self.inconclusive,
               "known_findings": dict(self.known_hit)}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        d = os.path.join(B.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, os.path.join(d, self.prop + ".json"))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            return 1
        low = [(k, n, self.events[k]) for k, n in self.floors if self.events[k] < n]
        if low:
            print("%s: observed too little: %s" % (self.prop, low))
            return 2
        print("%s: ok, %d evaluations, %d distinct, %.1f s, %s" % (
            self.prop, self.evaluations, len(self.seen), time.time() - self.t0, dict(self.events.most_common(12))))
        return 0

    # ---- parallel production of cases
    def produce(self, fn, args, procs=None):
        """fn(arg) in worker processes; results in order of arrival"""
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(procs or os.cpu_count() or 4) as p:
            for x in p.imap_unordered(fn, args, chunksize=8):
                yield x
                if self.full():
                    p.terminate()
                    return


class Stop(Exception):
    """A violation made the rest of the run pointless."""


def crashed(r):
    """why a run of a program that must end normally did not, or None"""
    s = r.status
    if s in (1014, 1024, 1009):
        return None
    if "ERROR: AddressSanitizer" in r.out or "runtime error:" in r.out or "LeakSanitizer" in r.out:
        return "sanitizer report"
    if "ThreadSanitizer" in r.out:
        return "data race report"
    if s >= 1000:
        return "killed by signal %d" % (s - 1000)
    return None


def timed_out(r):
    return r.status in (1014, 1024, 1009)


def differential(c, runner, jobs, judge, retry_timeout=90):
    """Run jobs; judge(job, result) returns None or (key, message, text). A run that exceeds its
    time is repeated alone with more; twice too long goes to job['hang'] ('violation' or not)."""
    late = []
    ended = [0]

    def guarded():
        for j in jobs:
            # most of them hang: that is settled below, not by waiting for all of them
            if c.full() or (len(late) >= 16 and len(late) * 4 > ended[0]):
                return
            yield j

    def one(j, r):
        v = judge(j, r)
        if v:
            c.violation(*v)

    for j, r in runner.run(guarded()):
        ended[0] += 1
        if timed_out(r):
            late.append(j)
        else:
            one(j, r)
    for j in late[:4]:
        if c.full():
            break
        j = dict(j, timeout=retry_timeout)
        for _, r in runner.run([j]):
            if timed_out(r):
                if j.get("hang", True) and not (j.get("mode") == "L" and "=compiled" not in r.out):
                    c.violation("hang", "did not finish in %d s" % retry_timeout, j.get("text", ""))
                    c.hung = True
                else:
                    c.inconclusive += 1
            else:
                one(j, r)
    c.inconclusive += max(0, len(late) - 4)
