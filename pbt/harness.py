"""Facets: one executable statement each, driven by Hypothesis.

A facet is (strategy -> JSON-able case, run(case)).  `run` raises to report a
violation (any exception counts: a crash on a valid input is a violation too)
and may return a string: the reason why the case was non-trivial (None/"" =
trivial).  The case is plain data so that a replay file is self-contained.
"""
import hashlib
import json
import os
import signal
import threading
import time
import traceback
import zlib


class Violation(AssertionError):
    pass


class CaseTimeout(Violation):
    """One case ran for far longer than any case does: the code under test hangs."""


CASE_SECS = int(os.environ.get("VERIF_CASE_SECS", "240"))


def with_timeout(fn, case):
    """fn(case), interrupted after CASE_SECS (only reaches Python code, e.g. an endless loop)."""
    if threading.current_thread() is not threading.main_thread():
        return fn(case)

    def on_alarm(*_):
        raise CaseTimeout(f"no answer within {CASE_SECS} s")

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECS, 5)
    try:
        return fn(case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Facet:
    def __init__(self, name, strategy, run, quick, thorough, weight, secs):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.weight = weight
        self.secs = secs


class Registry:
    """What one checks/<id>.py module declares."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.facets = {}
        self.probes = {}

    def facet(self, name, strategy, quick=100, thorough=2000, weight=1.0, secs=60):
        def deco(fn):
            self.facets[name] = Facet(name, strategy, fn, quick, thorough, weight, secs)
            return fn

        return deco

    def probe(self, key):
        """A recorded finding: fn() raises while the defect is still there."""

        def deco(fn):
            self.probes[key] = fn
            return fn

        return deco


def dumps(case):
    return json.dumps(case, sort_keys=True, default=str)


def case_hash(case):
    return hashlib.sha1(dumps(case).encode()).hexdigest()[:12]


class Outcome:
    def __init__(self, facet):
        self.facet = facet
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.fail = None  # (size, case, text)
        self.first_fail_at = None
        self.wall = 0.0
        self.stopped_early = False


def few_mutations():
    """Hypothesis follows an example by up to five variants with copied parts, most of which are the same
    plain data again; with a few dozen cases per facet fresh ones are worth more: keep one in eight."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as Runner

        original = Runner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    if getattr(original, "few", False):
        return

    def generate_mutations_from(self, data):
        if self.random.random() < 0.125:
            original(self, data)

    generate_mutations_from.few = True
    Runner.generate_mutations_from = generate_mutations_from


def run_facet(facet, tier, seed, scale=1.0, shrink_secs=None):
    if shrink_secs is None:
        shrink_secs = float(os.environ.get("VERIF_SHRINK_SECS", "45"))
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = Outcome(facet.name)
    n = facet.quick if tier == "quick" else facet.thorough
    n = max(1, int(n * scale))
    t0 = time.time()
    limit = facet.secs * (2 if tier == "quick" else 25)
    if "VERIF_DEADLINE" in os.environ:
        limit = min(limit, max(5.0, float(os.environ["VERIF_DEADLINE"]) - t0))

    def body(case):
        now = time.time()
        if out.first_fail_at is None:
            if now - t0 > limit:
                out.stopped_early = True
                return
        elif now - out.first_fail_at > shrink_secs:
            # shrinking budget spent: only the best reproduction still fails
            if out.fail is not None and dumps(case) == dumps(out.fail[1]):
                raise Violation(out.fail[2])
            return
        out.evaluations += 1
        try:
            tag = with_timeout(facet.run, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            out.evaluations -= 1
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # noqa: BLE001
            size = len(dumps(case))
            if out.first_fail_at is None:
                out.first_fail_at = time.time()
            if isinstance(e, CaseTimeout):
                out.first_fail_at = 0.0  # too slow to shrink
            if out.fail is None or size <= out.fail[0]:
                out.fail = (size, case, "".join(traceback.format_exception(e))[-6000:])
            raise
        if tag:
            h = case_hash(case)
            if h not in out.nontrivial:
                out.nontrivial.add(h)
                if len(out.samples) < 3:
                    text = dumps(case)
                    out.samples.append(
                        {"facet": facet.name, "nontrivial_because": str(tag), "case": text[:1500]}
                    )

    few_mutations()
    test = given(facet.strategy)(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    test = hypothesis.seed(zlib.crc32(f"{facet.name}:{seed}".encode()))(test)
    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if out.fail is None:
            raise
    out.wall = time.time() - t0
    return out
