"""Bounded stand-ins: the property's postcondition evaluated on the real code for a stated finite set of inputs."""
import hashlib
import json
import os
import random
import signal
import time
import traceback


HANG = 120          # seconds for one input; inputs take milliseconds


class Hang(BaseException):
    pass


def in_code_under_test(tb):
    """does a traceback pass through pycaption"""
    top = os.path.join(os.environ.get("PYCAPTION_REPO", "/repo"), "pycaption") + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(top):
            return True
        tb = tb.tb_next
    return False


def canon(x):
    try:
        return json.dumps(x, sort_keys=True, default=repr, ensure_ascii=False)
    except Exception:
        return repr(x)


class Run:
    def __init__(self, prop, tier, seed, budget_s):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0, self.budget = time.time(), budget_s
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.violations = []
        self.rules = []
        self.groups = {}
        self.errors = []
        self.truncated = []
        self.last = None
        signal.signal(signal.SIGALRM, self.alarm)

    def alarm(self, *_):
        raise Hang()

    def run(self, f):
        """one case function; an exception or an endless loop of the code under test that the function does not judge itself is a failure"""
        try:
            signal.alarm(HANG)
            f(self)
        except Hang as e:
            if in_code_under_test(e.__traceback__):
                self.fail("%s:no answer" % f.__name__, "no answer within %d s" % HANG, self.last)
            self.errors.append("%s: no answer within %d s" % (f.__name__, HANG))
            return False
        except Exception as e:
            if in_code_under_test(e.__traceback__):
                self.fail("%s:raise" % f.__name__, "%s: %s" % (type(e).__name__, e), {"last input": self.last, "traceback": traceback.format_exc()[-1500:]})
            self.errors.append("%s: %s" % (f.__name__, traceback.format_exc()[-1500:]))
        finally:
            signal.alarm(0)
        return True

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, salt))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def count(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def case(self, group, key, nontrivial=True, sample=None):
        """Count one evaluation; key identifies the input."""
        self.evaluations += 1
        self.last = key
        signal.alarm(HANG)
        g = self.groups.setdefault(group, {"evaluations": 0, "distinct_nontrivial": 0})
        g["evaluations"] += 1
        h = hashlib.blake2b((group + "\0" + (key if isinstance(key, str) else canon(key))).encode("utf-8", "surrogatepass"),
                            digest_size=12).digest()
        if nontrivial and h not in self.seen:
            self.seen.add(h)
            g["distinct_nontrivial"] += 1
        if len([s for s in self.samples if s["group"] == group]) < 2:
            self.samples.append({"group": group, "input": sample if sample is not None else key})

    def fail(self, key, what, data):
        """key: short stable name of the failing call site / input class (matched against known_findings.json)."""
        for v in self.violations:
            if v["key"] == key:
                v["count"] += 1
                return
        self.violations.append({"key": key, "what": what, "data": data, "count": 1})

    def loop(self, group, n):
        """n iterations unless 60% of what is left of the time budget is used up (recorded), so that later loops get their turn."""
        reserve = .4 * max(self.left(), 0)
        for i in range(n):
            if self.left() <= reserve:
                self.truncated.append("%s: stopped at %d of %d (time budget)" % (group, i, n))
                return
            signal.alarm(HANG)
            yield i

    def result(self):
        return {"evaluations": self.evaluations, "distinct_nontrivial": len(self.seen), "samples": self.samples[:12],
                "violations": self.violations, "rule": " | ".join(self.rules), "groups": self.groups,
                "errors": self.errors, "truncated": self.truncated, "wall_s": round(time.time() - self.t0, 2)}
