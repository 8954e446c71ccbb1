"""What the Python jobs share: reports in the format of cc/mc.hpp, the job list,
state deduplication and breadth-first exploration."""
import json
import os
import sys
import traceback


def arg(name, default=None):
    for a in sys.argv[1:]:
        if a.startswith("--%s=" % name):
            return a[len(name) + 3:]
    return default


TIER = arg("tier", "quick")
QUICK = TIER != "thorough"
SEED = int(arg("seed", "1"))


class Report(object):
    def __init__(self):
        self.states = self.transitions = self.traces = self.evals = 0
        self.violations, self.counts = [], {}
        self.extra, self.samples, self.complete = {}, [], True

    def check(self, ok, key, detail):
        """detail: a string or a function that gives one."""
        self.evals += 1
        if ok:
            return True
        self.counts[key] = self.counts.get(key, 0) + 1
        if self.counts[key] <= 3 and len(self.violations) < 60:
            self.violations.append({"key": key, "detail": (detail if isinstance(detail, str) else detail())[:1500]})
        return False

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(text[:300])

    def bump(self, name, by=1):
        self.extra[name] = self.extra.get(name, 0) + by

    def write(self, path):
        with open(path, "w") as f:
            json.dump({"complete": self.complete, "states": self.states, "transitions": self.transitions, "traces": self.traces,
                       "evals": self.evals, "violations": self.violations, "violation_counts": self.counts,
                       "extra": self.extra, "samples": self.samples}, f)


R = Report()
JOBS = {}


def job(name, run, *args):
    JOBS[name] = (run, args)


def main():
    if "--list" in sys.argv:
        print("\n".join(JOBS))
        return
    run, args = JOBS[arg("job")]
    code = 0
    try:
        run(*args)
    except BaseException:
        # An exception the job did not expect comes from the code under test.
        R.check(False, "exception", "job %s: %s" % (arg("job"), traceback.format_exc()[-1500:]))
        R.complete = False
    if arg("out"):
        R.write(arg("out"))
    else:
        print(json.dumps({k: getattr(R, k) for k in ("states", "transitions", "traces", "evals", "counts", "extra", "samples")}))
        for v in R.violations:
            print(v["key"], v["detail"])
    sys.stdout.flush()
    os._exit(code)  # no destructors of half-broken objects
