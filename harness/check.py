"""check.py <property> : decides one property on the tree in /repo.

exit 0  held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself failed
"""
import collections
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class Violation(Exception):
    def __init__(self, replay, what):
        Exception.__init__(self, what)
        self.replay = replay


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.cov = collections.OrderedDict()
        self.samples = []
        self.accepted = set()      # recordings the specification agrees with (by id)
        self.states = self.transitions = self.traces = 0
        self.actions = collections.Counter()
        self.level = "model_checking"
        self.assumptions = []
        self.violations = []
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def q(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def rng(self, *key):
        return random.Random("%d/%s/%s" % (self.seed, self.pid, "/".join(map(str, key))))

    def elapsed(self):
        return time.time() - self.t0

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def write_replay(self, name, data):
        path = os.path.join(VERIF, "evidence", "replay-%s-%s.json" % (self.pid, name))
        with open(path, "w") as f:
            json.dump(data, f, indent=1, sort_keys=True, default=str)
        return path

    def fail(self, name, data, what):
        path = self.write_replay(name, data)
        raise Violation(path, what)

    def known(self, name, data, what):
        """a failure that is listed in known-findings.txt is only reported"""
        key = "finding: property=%s %s " % (self.pid, name)
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                if line.startswith(key):
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, line[len(key):].strip()))
                    return
        self.fail(name, data, what)

    def evidence(self):
        cov = collections.OrderedDict(states=self.states, transitions=self.transitions,
                                      traces_validated_against_impl=self.traces)
        cov.update(self.cov)
        if self.actions:
            cov["traces_taking_each_spec_step"] = dict(sorted(self.actions.items()))
        cov["samples"] = self.samples[:3] or [{"note": "none"}]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(self.elapsed(), 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.violations:
            ev["violations"] = self.violations
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)


def failed_inside(e):
    """an error that came out of the code under test where none is expected"""
    import impl
    frames = traceback.extract_tb(e.__traceback__)
    return frames and os.path.abspath(frames[-1].filename).startswith(os.path.join(os.path.abspath(impl.REPO_SRC), "zope", "tal", ""))


def run(ck):
    import props
    try:
        props.run(ck)
    except Violation:
        raise
    except Exception as e:
        if not failed_inside(e):
            raise
        ck.fail("failure", {"property": ck.pid, "traceback": traceback.format_exc()}, "unexpected %s: %s" % (type(e).__name__, str(e)[:300]))


def main(argv):
    pid = argv[1]
    ck = Check(pid)
    try:
        run(ck)
    except Violation as v:
        ck.violations.append(str(v))
        ck.evidence()
        print("%s" % v)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    except Exception:
        traceback.print_exc()
        print("check %s could not be completed" % pid)
        return 2
    ck.evidence()
    print("%s %s: held; %s" % (pid, ck.tier, json.dumps({k: v for k, v in [("states", ck.states), ("traces", ck.traces)]})))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
