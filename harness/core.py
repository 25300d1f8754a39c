"""Monitor plumbing: verdicts, counters, coverage buckets, step budget."""
import sys
import json
import time
import hashlib
import collections


class Violation(Exception):
    """The oracle observed an execution that refutes the property."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    """This case could not be judged (harness or environment trouble)."""


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


def short(o, n=400):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + '...<{} chars>'.format(len(s))


class Monitor:
    """Collects what the deciding oracle actually observed in one case."""

    def __init__(self):
        self.checks = 0
        self.counters = collections.Counter()
        self.buckets = collections.Counter()
        self.log = []

    # observations -----------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def cover(self, *names):
        for name in names:
            self.buckets[str(name)] += 1

    def event(self, *what):
        self.counters['events'] += 1
        if len(self.log) < 40:
            self.log.append(short(' '.join(str(w) for w in what), 300))

    # verdicts -----------------------------------------------------------
    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def check(self, cond, msg, **detail):
        self.checks += 1
        if not cond:
            raise Violation(msg, **detail)

    def eq(self, got, want, msg, **detail):
        self.checks += 1
        if not (got == want):
            raise Violation(msg, got=short(got, 1500), want=short(want, 1500), **detail)

    def raises(self, exc, fn, msg, **detail):
        """fn() must raise exactly an `exc` (subclasses included)."""
        self.checks += 1
        try:
            res = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(msg + ': wrong exception type', got=short(repr(e)), **detail)
        raise Violation(msg + ': no exception', got=short(res), **detail)


def case_hash(case):
    return hashlib.sha256(
        json.dumps(case, sort_keys=True, default=str).encode('utf8', 'surrogatepass')).hexdigest()
