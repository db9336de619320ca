"""C25: debugger, profiler and memory tracker."""
import contextlib
import io
import statistics
from unittest import mock

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import catalog
from common import arr, close, history, same
from drivers import fx_prog
from harness import Registry
from run import key

R = Registry(
    "C25",
    rule="several records of several modules (or steps where a hook fires and steps where it does not) are summarised",
    assumptions=[
        "process sizes are those of a stand-in for psutil.Process with a generated history of sizes",
        "the memory tracker takes one snapshot before and one after every call; leak detection is judged "
        "with process sizes that grow at a constant rate",
    ],
)
MODULES = ["a", "ab", "b"]
MB = 1024.0 * 1024.0


def OPS(op):
    return st.one_of(st.lists(op, min_size=1, max_size=4), st.lists(op, min_size=10, max_size=40))


class FakeProcess:
    def __init__(self, sizes):
        self.sizes, self.i, self.last = sizes, 0, 0.0

    def memory_info(self):
        self.last = self.sizes[self.i % len(self.sizes)]
        self.i += 1
        return mock.Mock(rss=self.last * MB)

    def cpu_percent(self, *a, **k):
        return 12.5


@contextlib.contextmanager
def process(sizes):
    import psutil

    # the methods of the class, so that it does not matter how and where the class is imported
    p = FakeProcess(sizes)
    info = mock.patch.object(psutil.Process, "memory_info", lambda self: p.memory_info())
    cpu = mock.patch.object(psutil.Process, "cpu_percent", lambda self, *a, **k: p.cpu_percent())
    with info, cpu:
        yield p


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def feq(a, b, what):
    assert abs(float(a) - float(b)) <= 1e-9 + 1e-9 * abs(float(b)), f"{what}: {a} != {b}"


# ------------------------------------------------ debugger

HOOKS = ["h0", "h1", "h2"]
CONDS = {
    "none": (None, lambda s, st_, i, o: False),
    "always": (lambda s, st_, i, o: True, lambda s, st_, i, o: True),
    "big": (lambda s, st_, i, o: i > 3, lambda s, st_, i, o: i > 3),
    "state": (lambda s, st_, i, o: st_["n"] >= 2, lambda s, st_, i, o: st_["n"] >= 2),
    "output": (lambda s, st_, i, o: o < 0, lambda s, st_, i, o: o < 0),
    "fails": (lambda s, st_, i, o: 1 // 0, lambda s, st_, i, o: False),
}


@st.composite
def cond(draw):
    k = draw(st.sampled_from(sorted(CONDS) + ["interval", "interval", "threshold", "threshold"]))
    if k == "interval":
        return [k, draw(st.integers(1, 4))]
    if k == "threshold":
        return [k, draw(st.integers(-3, 5))]
    return [k, 0]


def make_cond(c):
    """-> (the condition given to the library, the reference condition)"""
    from wax.flax.debug import step_interval, value_threshold

    k, v = c
    if k == "interval":
        return step_interval(v), lambda s, st_, i, o: s % v == 0
    if k == "threshold":
        return value_threshold(v), lambda s, st_, i, o: i > v
    return CONDS[k]


DBG_OPS = st.one_of(
    *[
        st.tuples(
            st.just("step"),
            st.sampled_from(MODULES),
            st.integers(0, 3),
            st.integers(-5, 8),
            st.integers(-5, 8),
            st.sampled_from([None, 0.001, 0.002, 0.25, 1.5]),
        ).map(list)
    ]
    * 6,
    st.tuples(
        st.just("add"), st.sampled_from(HOOKS), cond(), st.sampled_from(["log", "capture", "alert"]), st.integers(1, 4)
    ).map(list),
    st.tuples(st.just("remove"), st.sampled_from(HOOKS)).map(list),
    st.tuples(st.just("hook_enabled"), st.sampled_from(HOOKS), st.booleans()).map(list),
    st.tuples(st.just("enabled"), st.booleans()).map(list),
    st.just(["clear"]),
)


@R.facet(
    "debugger",
    st.fixed_dictionaries(
        {
            "ops": OPS(DBG_OPS),
            "max_history": st.integers(1, 6),
            "states": st.booleans(),
            "perf": st.booleans(),
            "hooks": st.lists(st.tuples(st.sampled_from(HOOKS), cond(), st.integers(1, 4)).map(list), max_size=3),
        }
    ),
    quick=400,
    thorough=6000,
    weight=2,
    secs=40,
)
def _(c):
    from wax.flax.debug import DebugHook, StreamingDebugger

    d = StreamingDebugger(
        enable_state_tracking=c["states"], enable_performance_tracking=c["perf"], max_history=c["max_history"]
    )
    hooks, step, enabled, hist, times = {}, 0, True, [], []
    fired = missed = 0
    ops = [["add", n, cd, "capture", m] for n, cd, m in c["hooks"]] + c["ops"]
    for k, op in enumerate(ops):
        if op[0] == "add":
            lib, ref = make_cond(op[2])
            d.add_hook(DebugHook(op[1], lib, action=op[3], max_events=op[4]))
            hooks[op[1]] = {"ref": ref, "max": op[4], "hits": 0, "events": [], "on": True}
        elif op[0] == "remove":
            d.remove_hook(op[1])
            hooks.pop(op[1], None)
        elif op[0] == "hook_enabled":
            if op[1] in hooks:
                d.hooks[op[1]].enabled = op[2]
                hooks[op[1]]["on"] = op[2]
        elif op[0] == "enabled":
            (d.enable if op[1] else d.disable)()
            enabled = op[1]
        elif op[0] == "clear":
            d.clear_history()
            hist, times = [], []
            for h in hooks.values():
                h["hits"], h["events"] = 0, []
        else:
            _, mod, n, i, o, dt = op
            state = {"n": n, "deep": {"v": jnp.asarray([float(i), o])}}
            quiet(d.step, mod, state, float(i), float(o), dt)
            if enabled:
                step += 1
                if c["states"]:
                    hist.append((n, [i, o]))
                if c["perf"] and dt is not None:
                    times.append(dt)
                for h in hooks.values():
                    if h["on"] and h["ref"](step, state, i, o):
                        h["hits"] += 1
                        h["events"].append((step, mod, i, o, n, dt))
                        fired += 1
                    else:
                        missed += 1
        what = f"after {op} ({k})"
        s = d.get_summary()
        assert s["total_steps"] == step, f"{what}: {s['total_steps']} steps counted of {step}"
        assert s["state_history_length"] == min(len(hist), c["max_history"]), f"{what}: {s['state_history_length']} states kept"
        got = [(x["n"], np.asarray(x["deep"]["v"]).tolist()) for x in d.state_history]
        assert got == hist[-c["max_history"] :], f"{what}: states {got} kept of {hist}"
        assert set(s["hooks"]) == set(hooks), f"{what}: hooks {sorted(s['hooks'])}"
        e = quiet(d.export_events)
        for n, h in hooks.items():
            keep = h["events"][-h["max"] :]
            assert s["hooks"][n] == {"hit_count": h["hits"], "enabled": h["on"], "events": len(keep)}, (
                f"{what}: hook {n} {s['hooks'][n]}, fired {h['hits']} times"
            )
            ev = [(v.step, v.module_name, v.input_data, v.output_data, v.state_snapshot["n"]) for v in d.hooks[n].events]
            assert ev == [x[:5] for x in keep], f"{what}: events {ev} of hook {n}, expected {keep}"
            assert [x["step"] for x in e["hooks"][n]] == [x[0] for x in keep], f"{what}: exported {e['hooks'][n]}"
            for x, y in zip(e["hooks"][n], keep):
                ms = x["metadata"]["execution_time_ms"]
                assert ms is None if y[5] is None else abs(ms - 1000 * y[5]) < 1e-6, f"{what}: {ms} ms for {y[5]} s"
        p = s["performance"]
        if times:
            assert p["total_steps"] == len(times), f"{what}: {p}"
            feq(p["avg_time_ms"], 1000 * sum(times) / len(times), f"{what}: mean time")
            feq(p["max_time_ms"], 1000 * max(times), f"{what}: longest time")
            feq(p["min_time_ms"], 1000 * min(times), f"{what}: shortest time")
        else:
            assert not p or p["total_steps"] == 0, f"{what}: {p}"
    return "a hook fires on some steps only" if fired and missed else None


# hooks made by the debugger itself


@R.facet(
    "named_hooks",
    st.fixed_dictionaries(
        {
            "steps": st.lists(
                st.tuples(st.integers(-5, 8), st.sampled_from([None, 0.001, 0.2, 1.5])).map(list), min_size=1, max_size=12
            ),
            "state": cond(),
            "brk": cond(),
            "slow_ms": st.sampled_from([0.5, 50.0, 1000.0]),
            "keys": st.lists(st.sampled_from(["s", "i", "o", "h", "", "x y", "State "]), max_size=3),
            "end": st.sampled_from(["c", "continue", "C ", "eof", "q"]),
            "perf": st.booleans(),
        }
    ),
    quick=150,
    thorough=3000,
    weight=1,
    secs=30,
)
def _(c):
    from wax.flax.debug import StreamingDebugger

    d = StreamingDebugger(enable_performance_tracking=c["perf"])
    lib_s, ref_s = make_cond(c["state"])
    lib_b, ref_b = make_cond(c["brk"])
    assert d.add_state_change_hook("a", lib_s) is d and d.add_breakpoint("b", lib_b) is d
    assert d.add_performance_monitor("p", c["slow_ms"]) is d
    names = {"state": "state_change_a", "brk": "breakpoint_b", "perf": "perf_p"}
    assert set(d.hooks) == set(names.values()), sorted(d.hooks)
    want, last = {k: [] for k in names}, None
    for t, (v, dt) in enumerate(c["steps"], 1):
        state, asked, script = {"n": v}, [], list(c["keys"])

        def answer(prompt=""):
            asked.append(prompt)
            if script:
                return script.pop(0)
            if c["end"] == "eof":
                raise EOFError
            return c["end"]

        stop = False
        with mock.patch("builtins.input", answer), contextlib.redirect_stdout(io.StringIO()) as out:
            try:
                d.step("mod", state, v, -v, dt)
            except KeyboardInterrupt:
                stop = True
        last = dt if dt is not None and c["perf"] else last
        if ref_s(t, state, v, -v):
            want["state"].append(t)
        hit = bool(ref_b(t, state, v, -v))
        if hit:
            want["brk"].append(t)
        assert len(asked) == (len(c["keys"]) + 1 if hit else 0), f"step {t}: {len(asked)} prompts, breakpoint {hit}"
        assert stop == (hit and c["end"] == "q"), f"step {t}: interrupted {stop}"
        assert ("BREAKPOINT" in out.getvalue()) == hit
        if stop:
            break
        if last is not None and last * 1000 > c["slow_ms"]:
            want["perf"].append(t)
    for k, n in names.items():
        got = [e.step for e in d.hooks[n].events]
        assert got == want[k], f"hook {n} fired at {got}, expected {want[k]} in {c}"
        assert d.hooks[n].hit_count == len(want[k])
        assert all(e.event_type == ("breakpoint" if k == "brk" else "state_change") for e in d.hooks[n].events)
    return "a breakpoint is hit at some steps only" if want["brk"] and len(want["brk"]) < len(c["steps"]) else None


@R.facet(
    "conditions",
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["change", "change", "threshold"]),
            "tol": st.sampled_from([0.05, 0.3, 1.0]),
            "dim": st.sampled_from([0, 0, 3, -1]),
            "v": st.lists(
                st.one_of(st.none(), st.lists(st.integers(-12, 12).map(lambda v: v / 8), min_size=3, max_size=3)),
                min_size=1,
                max_size=12,
            ),
        }
    ),
    quick=150,
    thorough=4000,
    weight=0.7,
    secs=30,
)
def _(c):
    from wax.flax.debug import state_change_detector, value_threshold

    seen = set()
    if c["kind"] == "threshold":
        f = value_threshold(c["tol"], field="x")
        for t, v in enumerate(c["v"]):
            inp = {"y": 99.0} if v is None else {"x": jnp.asarray(v[0]), "y": -99.0}
            got = bool(f(t, {}, inp, None))
            assert got == (v is not None and np.float32(v[0]) > c["tol"]), f"{inp} above {c['tol']}: {got}"
            seen.add(got)
        return "both answers" if len(seen) == 2 else None
    f = state_change_detector("x", tolerance=c["tol"])
    ref = None
    for t, v in enumerate(c["v"]):
        if v is None:
            got, want = f(t, {"y": 1.0}, None, None), False
        else:
            x = {0: jnp.asarray(v[0]), 3: jnp.asarray(v), -1: v[0]}[c["dim"]]
            a = np.asarray(v if c["dim"] == 3 else v[:1], np.float64)
            got = f(t, {"x": x}, None, None)
            if ref is None:
                ref, want = a, False
            else:
                change = np.sqrt(((a - ref) ** 2).sum())
                if abs(change - c["tol"]) < 1e-3:
                    return None
                want = bool(change > c["tol"])
                ref = a if want else ref
        assert bool(got) == want, f"step {t}: detected {bool(got)} in {c['v'][: t + 1]} with tolerance {c['tol']}"
        seen.add(want)
    return "both answers" if len(seen) == 2 else None


# what is kept for later inspection


@R.facet(
    "snapshots",
    st.fixed_dictionaries(
        {
            "form": st.sampled_from(["jax", "numpy", "list", "named", "nested", "collections"]),
            "x": st.lists(st.lists(st.integers(-5, 5), min_size=2, max_size=2), min_size=1, max_size=5),
            "mutate": st.booleans(),
        }
    ),
    quick=80,
    thorough=1500,
    weight=0.5,
    secs=20,
)
def _(c):
    import optax

    from wax.flax.debug import DebugHook, StreamingDebugger

    d = StreamingDebugger()
    h = DebugHook("all", lambda *a: True, action="capture")
    d.add_hook(h)
    buf = np.zeros(2, np.float32)
    for v in c["x"]:
        buf[:] = v
        own = buf if c["mutate"] else buf.copy()
        data = {
            "jax": lambda: jnp.asarray(own),
            "numpy": lambda: own,
            "list": lambda: [jnp.asarray(own), [own]],
            "named": lambda: optax.TraceState(trace={"w": jnp.asarray(own)}),
            "nested": lambda: {"opt": (optax.EmptyState(), optax.TraceState(trace=jnp.asarray(own)))},
            "collections": lambda: {"a": {"w": own}, "b": [own]},
        }[c["form"]]()
        state = {"x": data}
        d.step("m", state, data, data)
    for k, v in enumerate(c["x"]):
        e = h.events[k]
        for name, got in (
            ("state history", d.state_history[k]),
            ("event state", e.state_snapshot),
            ("event input", e.input_data),
            ("event output", e.output_data),
        ):
            leaves = jax.tree_util.tree_leaves(got)
            assert leaves and all(hasattr(x, "shape") for x in leaves), f"{name}: {got!r} kept for a {c['form']} value"
            for x in leaves:
                assert np.asarray(x).tolist() == v, f"{name} of step {k + 1}: {np.asarray(x).tolist()} kept, was {v}"
    return "several different steps" if len({tuple(v) for v in c["x"]}) > 1 else None


# ------------------------------------------------ profiler

DATA = st.recursive(
    st.sampled_from([["none"], ["f32", 3], ["i8", 4], ["np", 2], ["float"], ["str", "abc"], ["str", "é"]]),
    lambda s: st.one_of(
        st.lists(s, max_size=3).map(lambda v: ["list", v]), st.lists(s, max_size=3).map(lambda v: ["dict", v])
    ),
    max_leaves=5,
)


def data(d):
    """-> (value, bytes)"""
    k = d[0]
    if k == "none":
        return None, 0
    if k == "f32":
        return jnp.zeros(d[1], jnp.float32), 4 * d[1]
    if k == "i8":
        return jnp.zeros((2, d[1]), jnp.int8), 2 * d[1]
    if k == "np":
        return np.zeros(d[1]), 8 * d[1]
    if k == "float":
        return 1.5, 8
    if k == "str":
        return d[1], len(d[1].encode())
    parts = [data(v) for v in d[1]]
    n = sum(p[1] for p in parts)
    if k == "list":
        return [p[0] for p in parts], n
    return {str(i): p[0] for i, p in enumerate(parts)}, n


@R.facet(
    "profiler_leaks",
    st.fixed_dictionaries(
        {
            "sizes": st.one_of(
                st.lists(st.integers(1, 60), min_size=9, max_size=30),
                st.tuples(st.integers(8, 30), st.integers(-3, 9), st.integers(0, 30)).map(
                    lambda v: [100 + v[1] * max(0, k - v[2]) for k in range(v[0])]
                ),
            ),
            "max_history": st.sampled_from([5, 10, 12, 100]),
            "leak": st.sampled_from([5.0, 20.0, 50.0]),
            "modules": st.lists(st.sampled_from(MODULES), min_size=1, max_size=3),
        }
    ),
    quick=200,
    thorough=4000,
    weight=0.5,
    secs=20,
)
def _(c):
    from wax.flax.debug import StreamingProfiler

    got_any, m = 0, []
    with process(c["sizes"]):
        p = StreamingProfiler(max_history=c["max_history"], memory_leak_threshold_mb=c["leak"])
        for k, size in enumerate(c["sizes"]):
            p.record_metrics(c["modules"][k % len(c["modules"])], 0.001)
            m = (m + [size])[-c["max_history"] :]
            leaks, growth = p.detect_memory_leaks(), m[-1] - m[-10] if len(m) >= 10 else 0.0
            assert bool(leaks) == (growth > c["leak"]), f"growth of {growth} over the last 10 of {m}: {leaks}"
            for x in leaks:
                feq(x["growth_mb"], growth, "leak")
                feq(x["start_memory"], m[-10], "leak start")
                feq(x["end_memory"], m[-1], "leak end")
            got_any += bool(leaks)
    return "a leak in some records only" if 0 < got_any < len(c["sizes"]) else None


TIMES = st.sampled_from([0.0, 0.001, 0.002, 0.05, 0.1, 0.2, 3.0])
PROF_OPS = st.one_of(
    *[st.tuples(st.just("record"), st.sampled_from(MODULES), TIMES, DATA, DATA, st.booleans()).map(list)] * 6,
    st.tuples(st.just("context"), st.sampled_from(MODULES), st.booleans(), st.booleans()).map(list),
    st.tuples(st.just("enabled"), st.booleans()).map(list),
    st.just(["reset"]),
)


@R.facet(
    "profiler",
    st.fixed_dictionaries(
        {
            "ops": OPS(PROF_OPS),
            "max_history": st.sampled_from([1, 3, 100]),
            "threshold": st.sampled_from([1.5, 100.0]),
            "sizes": st.lists(st.integers(1, 400), min_size=1, max_size=8),
            "memory": st.booleans(),
            "leak": st.sampled_from([5.0, 50.0, 200.0]),
        }
    ),
    quick=400,
    thorough=6000,
    weight=2,
    secs=40,
)
def _(c):
    from wax.flax.debug import StreamingProfiler, create_performance_report

    with process(c["sizes"]) as proc:
        p = StreamingProfiler(
            max_history=c["max_history"], bottleneck_threshold_ms=c["threshold"], enable_memory_tracking=c["memory"],
            memory_leak_threshold_mb=c["leak"],
        )
        rec, n, slow, enabled, last, most = [], 0, [], True, None, 0
        for op in c["ops"]:
            if op[0] == "enabled":
                (p.enable if op[1] else p.disable)()
                enabled = op[1]
            elif op[0] == "reset":
                before = p.finalize()
                kept = (before.total_steps, len(before.metrics), len(before.bottlenecks))
                p.reset()
                assert (before.total_steps, len(before.metrics), len(before.bottlenecks)) == kept, (
                    "a result handed out before a reset is emptied by it"
                )
                rec, n, slow, last = [], 0, [], None
            else:
                if op[0] == "record":
                    _, mod, dt, inp, out, jit = op
                    (vi, ni), (vo, no) = data(inp), data(out)
                    p.record_metrics(mod, dt, vi, vo, jit)
                else:
                    _, mod, jit, err = op
                    dt, ni, no = None, 0, 0
                    try:
                        with p.start_step(mod) as ctx:
                            ctx.set_jit_compilation(jit)
                            if err:
                                raise KeyError("user error")
                    except KeyError:
                        assert err
                    else:
                        assert not err, "an error of the profiled code is swallowed"
                if enabled:
                    n += 1
                    mem = proc.last if c["memory"] else 0.0
                    if dt is None:
                        dt = p.metrics[-1].execution_time
                        assert 0 <= dt < 60, f"measured {dt} s"
                    # what the first record is compared with is not specified
                    grown = (p.metrics[-1].memory_delta if last is None else mem - last) if c["memory"] else 0.0
                    rec.append((n, mod, dt, mem, grown, ni, no, bool(jit)))
                    last = mem
                    if dt * 1000 > c["threshold"]:
                        slow.append((n, mod, dt * 1000, ni, no))
            what = f"after {op}"
            most = max(most, len({r[1] for r in rec}))
            keep = rec[-c["max_history"] :]
            got = [
                (m.step, m.module_name, m.execution_time, m.memory_usage, m.memory_delta, m.input_size, m.output_size, m.jit_compilation)
                for m in p.metrics
            ]
            assert got == keep, f"{what}: recorded {got}, expected {keep}"
            for mod in MODULES:
                g, mine = p.get_module_summary(mod), [r for r in keep if r[1] == mod]
                if not mine:
                    assert "error" in g, f"{what}: summary {g} without record"
                    continue
                t, m = [r[2] for r in mine], [r[3] for r in mine]
                assert g["total_invocations"] == len(mine) and g["jit_compilations"] == sum(r[7] for r in mine), f"{what}: {g}"
                for k, v in {
                    "total_time_ms": 1000 * sum(t),
                    "avg_time_ms": 1000 * statistics.mean(t),
                    "max_time_ms": 1000 * max(t),
                    "min_time_ms": 1000 * min(t),
                    "avg_memory_mb": statistics.mean(m),
                    "peak_memory_mb": max(m),
                }.items():
                    feq(g[k], v, f"{what}: {k} of module {mod}")
            r = p.finalize()
            assert r.total_steps == n and len(r.metrics) == len(keep), f"{what}: {r.total_steps} steps"
            b = [(x["step"], x["module"], x["execution_time_ms"], x["input_size_bytes"], x["output_size_bytes"]) for x in r.bottlenecks]
            assert b == slow, f"{what}: bottlenecks {b}, expected {slow}"
            s = r.get_summary()
            if not keep:
                assert "error" in s and not r.execution_stats, f"{what}: {s}"
                continue
            t, m = [x[2] for x in keep], [x[3] for x in keep]
            for stats, v in ((r.execution_stats, t), (r.memory_stats, m)):
                feq(stats["mean"], statistics.mean(v), f"{what}: mean")
                feq(stats["median"], statistics.median(v), f"{what}: median")
                feq(stats["min"], min(v), f"{what}: min")
                feq(stats["max"], max(v), f"{what}: max")
                feq(stats["std_dev"], statistics.stdev(v) if len(v) > 1 else 0, f"{what}: deviation")
            ex, me = s["execution"], s["memory"]
            feq(ex["total_time"], sum(t), f"{what}: total time")
            feq(ex["avg_time_ms"], 1000 * statistics.mean(t), f"{what}: mean time")
            feq(ex["median_time_ms"], 1000 * statistics.median(t), f"{what}: median time")
            feq(ex["max_time_ms"], 1000 * max(t), f"{what}: longest time")
            feq(ex["min_time_ms"], 1000 * min(t), f"{what}: shortest time")
            feq(me["peak_usage_mb"], max(m), f"{what}: peak memory")
            feq(me["avg_usage_mb"], statistics.mean(m), f"{what}: mean memory")
            feq(me["total_allocated"], sum(x[4] for x in keep if x[4] > 0), f"{what}: allocated memory")
            assert s["bottlenecks"] == len(slow) and s["jit_compilations"] == sum(x[7] for x in keep), f"{what}: {s}"
            assert s["session"]["total_steps"] == n, f"{what}: {s['session']}"
            text = create_performance_report(r)
            advice = " ".join(r.optimization_recommendations)
            if max(t) > 1e-9 and abs(max(t) / statistics.mean(t) - 3) > 1e-6:
                high = max(t) > 3 * statistics.mean(t)
                assert ("High execution time variance" in advice) == high, f"{what}: times {t}, advice {advice}"
            jits = sum(x[7] for x in keep)
            assert ("JIT compilations" in advice) == (jits > len(keep) / 10), f"{what}: {jits} compilations in {len(keep)}: {advice}"
            leaks, growth = p.detect_memory_leaks(), m[-1] - m[-10] if len(m) >= 10 else 0.0
            assert bool(leaks) == (growth > c["leak"]), f"{what}: growth of {growth} over the last 10 records: {leaks}"
            for x in leaks:
                feq(x["growth_mb"], growth, f"{what}: leak")
                feq(x["end_memory"], m[-1], f"{what}: leak")
            assert f"Total Steps: {n:,}" in text and (f"Bottlenecks: {len(slow)}" in text) == bool(slow), f"{what}: {text}"
    return "several modules recorded" if most > 1 else None


# ------------------------------------------------ memory tracker

TRACK_OPS = st.one_of(
    *[st.tuples(st.just("take"), st.sampled_from(MODULES), st.booleans(), DATA).map(list)] * 6,
    st.tuples(st.just("enabled"), st.booleans()).map(list),
    st.just(["reset"]),
)


@R.facet(
    "tracker",
    st.fixed_dictionaries(
        {
            "ops": OPS(TRACK_OPS),
            "interval": st.integers(1, 4),
            "max": st.integers(1, 8),
            "sizes": st.lists(st.integers(100, 104), min_size=1, max_size=8),
            "form": st.sampled_from(["flat", "collections"]),
        }
    ),
    quick=400,
    thorough=6000,
    weight=2,
    secs=40,
)
def _(c):
    from wax.flax.debug import MemoryTracker

    with process(c["sizes"]) as proc:
        tr = MemoryTracker(
            enable_detailed_tracking=False,
            enable_gc_monitoring=False,
            snapshot_interval=c["interval"],
            max_snapshots=c["max"],
        )
        snaps, n, enabled, last, most = [], 0, True, None, 0
        for op in c["ops"]:
            if op[0] == "enabled":
                (tr.enable if op[1] else tr.disable)()
                enabled = op[1]
            elif op[0] == "reset":
                tr.reset()
                snaps, n, last = [], 0, None
            else:
                _, mod, force, d = op
                v, size = data(d)
                state, sizes = v, (size, 0, 0)
                if c["form"] == "collections":
                    w, wsize = jnp.zeros(5), 20
                    state, sizes = {"params": {"w": w}, "state": {"my_buffer": v, "other": w}}, (size + wsize, wsize, size)
                elif isinstance(v, dict):
                    state = [v]
                got = tr.take_snapshot(mod, state, force=force)
                if not enabled:
                    assert got is None
                else:
                    n += 1
                    if force or n % c["interval"] == 0:
                        assert got is not None, f"no snapshot at step {n}"
                        snaps.append((n, mod, float(proc.last), *[s / MB for s in sizes], 0.0 if last is None else proc.last - last))
                        last = proc.last
                    else:
                        assert got is None, f"a snapshot at step {n} with interval {c['interval']}"
            what = f"after {op}"
            most = max(most, len({r[1] for r in snaps}))
            keep = snaps[-c["max"] :]
            got = [
                (s.step, s.module_name, s.process_memory_mb, s.state_variables_mb, s.parameters_mb, s.buffers_mb, s.memory_delta_mb)
                for s in tr.snapshots
            ]
            assert len(got) == len(keep) and all(
                a[:2] == b[:2] and np.allclose(a[2:], b[2:], rtol=1e-9, atol=1e-12) for a, b in zip(got, keep)
            ), f"{what}: snapshots {got}, expected {keep}"
            s = tr.get_memory_summary()
            if not keep:
                assert "error" in s, f"{what}: {s}"
                continue
            m = [x[2] for x in keep]
            assert s["session"]["total_snapshots"] == len(keep) and s["session"]["total_steps"] == n, f"{what}: {s['session']}"
            feq(s["current_usage"]["process_memory_mb"], m[-1], f"{what}: current")
            feq(s["current_usage"]["state_variables_mb"], keep[-1][3], f"{what}: state variables")
            feq(s["current_usage"]["parameters_mb"], keep[-1][4], f"{what}: parameters")
            feq(s["statistics"]["peak_memory_mb"], max(m), f"{what}: peak")
            feq(s["statistics"]["min_memory_mb"], min(m), f"{what}: smallest")
            feq(s["statistics"]["avg_memory_mb"], sum(m) / len(m), f"{what}: mean")
            feq(s["statistics"]["total_growth_mb"], m[-1] - m[0], f"{what}: growth")
            for mod in MODULES:
                g, mine = tr.get_module_memory_analysis(mod), [x for x in keep if x[1] == mod]
                if not mine:
                    assert "error" in g, f"{what}: {g}"
                    continue
                mm, ss = [x[2] for x in mine], [x[3] for x in mine]
                assert g["snapshots_count"] == len(mine), f"{what}: {g}"
                feq(g["memory_usage"]["current_mb"], mm[-1], f"{what}: module current")
                feq(g["memory_usage"]["peak_mb"], max(mm), f"{what}: module peak")
                feq(g["memory_usage"]["avg_mb"], sum(mm) / len(mm), f"{what}: module mean")
                feq(g["memory_usage"]["growth_mb"], mm[-1] - mm[0], f"{what}: module growth")
                feq(g["state_memory"]["peak_mb"], max(ss), f"{what}: module state peak")
                feq(g["state_memory"]["avg_mb"], sum(ss) / len(ss), f"{what}: module state mean")
            text = tr.generate_memory_report()
            assert f"Snapshots: {len(keep):,}" in text and f"Steps: {n:,}" in text, f"{what}: {text}"
            for v in (m[-1], max(m), sum(m) / len(m), m[-1] - m[0], *keep[-1][3:6]):
                # (either neighbour where the rounding of the mean is open)
                assert any(f" {x:.1f} MB" in text for x in (v, v - 1e-9, v + 1e-9)), f"{what}: {v} is not in {text}"
    return "several modules recorded" if most > 1 else None


@R.facet(
    "leaks",
    st.fixed_dictionaries(
        {
            "interval": st.integers(1, 12),
            "rate": st.sampled_from([-1.0, 0.0, 0.01, 0.05, 0.3, 2.0, 20.0]),
            "threshold": st.sampled_from([1.0, 10.0, 50.0]),
            "snaps": st.integers(3, 14),
        }
    ),
    quick=100,
    thorough=2000,
    weight=0.7,
    secs=30,
)
def _(c):
    from wax.flax.debug import MemoryTracker

    # one size per snapshot: `rate` MB per step, `interval` steps between snapshots
    sizes = [500.0 + c["rate"] * c["interval"] * k for k in range(c["snaps"])]
    with process(sizes):
        tr = MemoryTracker(
            enable_detailed_tracking=False,
            enable_gc_monitoring=False,
            snapshot_interval=c["interval"],
            leak_detection_threshold_mb=c["threshold"],
        )
        for _ in range(c["interval"] * c["snaps"]):
            tr.take_snapshot("m")
    for leak in tr.detected_leaks:
        steps = leak.last_detected_step - leak.first_detected_step
        feq(leak.growth_rate_mb_per_step, c["rate"], "growth rate per step")
        feq(leak.total_leaked_mb, c["rate"] * steps, "leaked memory")
        sev = "critical" if leak.total_leaked_mb > 100 else "high" if leak.total_leaked_mb > 50 else "medium" if leak.total_leaked_mb > 20 else "low"
        assert leak.severity == sev, f"{leak.severity} for {leak.total_leaked_mb} MB"
        assert leak.affected_modules == ["m"]
    want = 0
    for k in range(5, c["snaps"] + 1):
        growth = c["rate"] * c["interval"] * (min(k, 10) - 1)
        if min(abs(growth - c["threshold"]), 100 * abs(c["rate"] - c["threshold"] / 100)) < 1e-6:
            return None
        want += growth > c["threshold"] and c["rate"] > c["threshold"] / 100
    assert len(tr.detected_leaks) == want, f"{len(tr.detected_leaks)} leaks reported, {want} expected"
    lk = tr.get_memory_summary()["leaks"]
    assert lk["total_detected"] == want and lk["critical_leaks"] == sum(x.severity == "critical" for x in tr.detected_leaks)
    return "a leak" if want else ("growth below the threshold" if c["rate"] > 0 else None)


@R.facet(
    "uneven_leaks",
    st.fixed_dictionaries(
        {
            "interval": st.integers(1, 4),
            "threshold": st.sampled_from([1.0, 10.0, 50.0]),
            "max": st.sampled_from([6, 8, 100]),
            "growth": st.lists(st.sampled_from([-20.0, -1.0, 0.0, 0.5, 2.0, 9.0, 30.0]), min_size=5, max_size=16),
            "modules": st.lists(st.sampled_from(MODULES), min_size=16, max_size=16),
        }
    ),
    quick=150,
    thorough=4000,
    weight=0.7,
    secs=30,
)
def _(c):
    """the trend of the latest snapshots decides, whatever happens in between"""
    from wax.flax.debug import MemoryTracker

    sizes = list(np.cumsum([500.0] + c["growth"]))
    want = 0
    with process(sizes):
        tr = MemoryTracker(
            enable_detailed_tracking=False,
            enable_gc_monitoring=False,
            snapshot_interval=c["interval"],
            leak_detection_threshold_mb=c["threshold"],
            max_snapshots=c["max"],
        )
        for k in range(len(sizes)):
            mod = c["modules"][k % 16]
            for _ in range(c["interval"]):
                tr.take_snapshot(mod)
            lo = max(0, k + 1 - min(10, c["max"]))
            y = np.array(sizes[lo : k + 1])
            x = c["interval"] * np.arange(lo + 1, k + 2)
            if len(y) >= 5:
                rate = float(((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum())
                total = y[-1] - y[0]
                if min(abs(total - c["threshold"]), abs(rate - c["threshold"] / 100)) < 1e-6:
                    return None
                if total > c["threshold"] and rate > c["threshold"] / 100:
                    want += 1
                    leak = list(tr.detected_leaks)[-1]
                    feq(leak.growth_rate_mb_per_step, rate, "growth rate per step")
                    feq(leak.total_leaked_mb, total, "leaked memory")
                    assert (leak.first_detected_step, leak.last_detected_step) == (x[0], x[-1]), f"steps of {leak}"
                    names = {c["modules"][i % 16] for i in range(lo, k + 1)}
                    assert set(leak.affected_modules) == names, f"modules {leak.affected_modules}, expected {names}"
            assert len(tr.detected_leaks) == want, f"{len(tr.detected_leaks)} leaks after {y}, {want} expected"
    text = tr.generate_memory_report()
    assert (f"Total Leaks: {want}" in text) == bool(want), text
    critical = sum(x.severity == "critical" for x in tr.detected_leaks)
    high = sum(x.severity == "high" for x in tr.detected_leaks)
    if want:
        assert f"Critical: {critical}" in text and f"High Priority: {high}" in text, text
    return "a leak" if want else None


# ------------------------------------------------ wrapped streaming functions

WRAP = ["debug", "profile", "memory"]


@R.facet(
    "transparent",
    st.fixed_dictionaries(
        {
            "ops": st.lists(
                catalog.op(["ewma", "buffer", "lag", "ohlc", "rolling", "ffill"], hk=False), min_size=1, max_size=2
            ),
            "x": history(2, lengths=(4, 7)),
            "wrap": st.permutations(WRAP).flatmap(lambda p: st.integers(1, 3).map(lambda n: list(p[:n]))),
            "off": st.lists(st.sampled_from(WRAP), max_size=2, unique=True),
            "detail": st.booleans(),
            "timing": st.booleans(),
        }
    ),
    quick=60,
    thorough=2000,
    weight=2,
    secs=60,
)
def _(c):
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.debug import (
        DebugHook,
        MemoryTracker,
        StreamingDebugger,
        StreamingProfiler,
        debug_streaming,
        profile_streaming,
        track_memory_usage,
    )

    x = arr(c["x"])

    def make():
        @streaming_transform_with_state
        def program(v):
            outs = []
            for o in c["ops"]:
                y, v = catalog.fx_apply(o, v)
                outs.append(y)
            return outs

        return program

    def drive(f):
        params, state = f.init(key(), jnp.asarray(x[0]))
        ys = []
        for v in x:
            y, state = f.apply(params, state, None, jnp.asarray(v))
            ys.append((y, state))
        return params, ys

    with process([100.0, 101.0]):
        d, p = StreamingDebugger(), StreamingProfiler()
        m = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=1)
        hook = DebugHook("positive", lambda s, state, i, o: bool(i[0] > 0), action="capture")
        d.add_hook(hook)
        tools = {"debug": d, "profile": p, "memory": m}
        for n in c["off"]:
            tools[n].disable()
        f = make()
        for n in c["wrap"]:
            f = {
                "debug": debug_streaming(d, "mod", enable_timing=c["timing"]),
                "profile": profile_streaming(p, "mod", enable_detailed_tracking=c["detail"]),
                "memory": track_memory_usage(m, "mod", detailed_state_analysis=c["detail"]),
            }[n](f)
        e, g = drive(make()), drive(f)
    le, lg = jax.tree_util.tree_leaves(e), jax.tree_util.tree_leaves(g)
    assert jax.tree_util.tree_structure(e) == jax.tree_util.tree_structure(g), "wrapping changes the structure"
    for a, b in zip(le, lg):
        same(np.asarray(b), np.asarray(a), f"wrapped by {c['wrap']}")
    on = [n for n in c["wrap"] if n not in c["off"]]
    T = len(x)
    assert d.current_step == (T if "debug" in on else 0), f"{d.current_step} debugger steps for {T} calls"
    assert hook.hit_count == (int((x[:, 0] > 0).sum()) if "debug" in on else 0), f"hook fired {hook.hit_count} times"
    if "debug" in on:
        assert len(d.state_history) == T
        assert d.get_summary()["performance"].get("total_steps", 0) == (T if c["timing"] else 0)
        kept = jax.tree_util.tree_leaves(list(d.state_history))
        for a, b in zip(kept, jax.tree_util.tree_leaves([s for _, s in e[1]])):
            same(np.asarray(a), np.asarray(b), "state history")
    res = p.finalize()
    assert res.total_steps == (T if "profile" in on else 0), f"{res.total_steps} profiled steps for {T} calls"
    if "profile" in on:
        assert all(r.execution_time > 0 for r in res.metrics), "a call without duration is recorded"
        assert all(r.input_size == (8 if c["detail"] else 0) for r in res.metrics), [r.input_size for r in res.metrics]
    assert m.step_count == (2 * T if "memory" in on else 0), f"{m.step_count} snapshots for {T} calls"
    if "memory" in on and c["detail"]:
        size = sum(np.asarray(v).nbytes for v in jax.tree_util.tree_leaves(e[1][-1][1])) / MB
        feq(m.snapshots[-1].state_variables_mb, size, "memory of the state after the last call")
    return f"{len(on)} tools" if on else None
