"""C20: callbacks of the object-style loop (model-based generation of scopes, runs, stops and faults)."""
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from common import arr, matrix, same
from harness import Registry

R = Registry(
    "C20",
    rule="a run with at least two steps and two active callbacks, or a scope left by an exception, or callbacks nested in a scope",
    assumptions=["callbacks registered together have no promised order among themselves; those passed to a run are called in the order given"],
)
PHASES = ["start", "act", "step", "end"]


class Boom(Exception):
    pass


class Env:
    """n rows; obs, rewards are tagged so that every event can be identified"""

    def __init__(self, run, n, tail):
        self.run, self.n, self.tail = run, n, tail
        self.t = 0
        self.closed = 0

    def reset(self):
        return ("obs", self.run, 0)

    def step(self, action):
        self.t += 1
        if self.t == self.n:
            # the end is told with the last step
            return (None if self.tail else ("obs", self.run, self.t)), self.t * 10, True, {"t": self.t}
        return ("obs", self.run, self.t), self.t * 10, False, {"t": self.t}

    def close(self):
        self.closed += 1

    def __len__(self):
        return self.n


class World:
    def __init__(self, masks, forms):
        self.log = []
        self.stop = None
        self.fault = None
        self.inner = None
        self.runs = 0
        self.depth = 0
        self.cbs = [self.make(i, m, f) for i, (m, f) in enumerate(zip(masks, forms))]
        self.masks = masks

    def event(self, i, phase, env, t, data):
        self.log.append((env.run, phase, t, i, data))
        if self.fault and env.run == self.fault[0] and self.fault[1:] == (i, phase, t):
            raise Boom
        if self.inner and env.run == self.inner[0] and self.inner[1:4] == (i, phase, t):
            local = self.inner[4]
            self.inner = None
            self.execute({"n": 2, "local": local})
        if phase == "step" and self.stop and env.run == self.stop[0] and self.stop[1:] == (i, t):
            return True
        return [None, False, 0][(i + t) % 3]

    def make(self, i, mask, form):
        from wax.gym.callbacks import Callback

        start = lambda env, agent, obs: self.event(i, "start", env, 0, obs)
        act = lambda env, agent, obs, action: self.event(i, "act", env, env.t, (obs, action))
        step = lambda env, agent, s: self.event(i, "step", env, env.t - 1, s)
        end = lambda env, agent: self.event(i, "end", env, env.t, None)
        f = [fn if p in mask else None for p, fn in zip(PHASES, (start, act, step, end))]
        if form == "tuple":
            return tuple(f)
        if form == "object":
            return Callback(on_train_start=f[0], on_act=f[1], on_step=f[2], on_train_end=f[3])

        class Sub(Callback):
            def __init__(self):
                pass

        def meth(fn):
            return lambda self, *a: fn(*a)

        for name, fn in zip(["_on_train_start", "_on_act", "_on_step", "_on_train_end"], f):
            if fn:
                setattr(Sub, name, meth(fn))
        return Sub()

    def execute(self, spec):
        """one run; returns (run id, env, result or exception)"""
        from wax.gym.gym_unroll import gym_unroll

        run = self.runs
        self.runs += 1
        env = Env(run, spec["n"], spec.get("tail", False))
        if spec.get("stop"):
            self.stop = (run, *spec["stop"])
        if spec.get("fault"):
            self.fault = (run, *spec["fault"])
        if spec.get("inner"):
            self.inner = (run, *spec["inner"])
        local = spec["local"]
        kw = {} if local is None else {"callbacks": [self.cbs[i] for i in local]}
        if spec.get("kind") == "generator" and local:
            kw["callbacks"] = (self.cbs[i] for i in local)
        agent = lambda obs: ("action", obs)
        try:
            return run, env, gym_unroll(agent, env, **kw)
        except Boom:
            return run, env, Boom


def events_of(active, order, masks, spec, run, inner_of=None):
    """expected phases: list of (phase, t, callbacks, data)"""
    n = spec["n"]
    stop = spec.get("stop")
    last = n - 1
    if stop and stop[0] in active and "step" in masks[stop[0]] and stop[1] < n:
        last = min(last, stop[1])
    want = [("start", 0, ("obs", run, 0))]
    for t in range(last + 1):
        o = ("obs", run, t)
        want.append(("act", t, (o, ("action", o))))
        want.append(("step", t, None))
    want.append(("end", last + 1, None))
    return want, last


def check_run(w, spec, active, ordered, run, env, result):
    masks = w.masks
    log = [e for e in w.log if e[0] == run]
    want, last = events_of(active, ordered, masks, spec, run)
    k = 0
    fault = spec.get("fault")
    raised = False
    for phase, t, data in want:
        who = [i for i in active if phase in masks[i]]
        group = []
        hit = fault and fault[0] in who and (fault[1], fault[2]) == (phase, t)
        while k < len(log) and (log[k][1], log[k][2]) == (phase, t) and len(group) < len(who):
            group.append(log[k])
            k += 1
            if hit and group[-1][3] == fault[0]:
                break
        got = [g[3] for g in group]
        if hit:
            exp = who[: who.index(fault[0]) + 1] if ordered else None
            if ordered:
                assert got == exp, f"run {run} {phase} {t}: called {got}, expected {exp}"
            assert got and got[-1] == fault[0] and len(set(got)) == len(got)
            raised = True
        elif ordered:
            assert got == who, f"run {run} {phase} {t}: called {got}, expected {who}"
        else:
            assert sorted(got) == sorted(who), f"run {run} {phase} {t}: called {got}, expected {who}"
        for g in group:
            if phase == "step":
                s = g[4]
                o = ("obs", run, t + 1)
                end = t + 1 == spec["n"]
                if end and spec.get("tail"):
                    o = None
                assert (s.rw, s.obs, s.action, s.done, s.info) == (
                    (t + 1) * 10, o, ("action", ("obs", run, t)), end, {"t": t + 1}), f"state of step {t}: {s}"
            elif data is not None:
                assert g[4] == data, f"run {run} {phase} {t}: got {g[4]}, expected {data}"
        if raised:
            break
    assert k == len(log), f"run {run}: unexpected events {log[k:]}"
    if raised:
        assert result is Boom, "exception of a callback lost"
        return
    assert result is not Boom
    assert result.rw == (last + 1) * 10, f"run {run}: ended after {result.rw} / {last + 1} steps"
    assert env.t == last + 1
    assert env.closed == 1, f"closed {env.closed} times"


N_CB = 4


@st.composite
def run_spec(draw):
    n = draw(st.integers(1, 4))
    s = {"n": n, "tail": draw(st.booleans()), "kind": draw(st.sampled_from(["list", "generator"]))}
    s["local"] = draw(st.none() | st.lists(st.integers(0, N_CB - 1), max_size=3, unique=True))
    ev = lambda: [draw(st.integers(0, N_CB - 1)), draw(st.sampled_from(PHASES)), draw(st.integers(0, 3))]
    x = draw(st.integers(0, 7))
    if x in (1, 2):
        s["stop"] = [draw(st.integers(0, N_CB - 1)), draw(st.integers(0, 3))]
    if x in (3, 4):
        s["fault"] = ev()
    if x in (5, 6):
        s["inner"] = ev() + [draw(st.none() | st.lists(st.integers(0, N_CB - 1), max_size=2, unique=True))]
    return {"op": "run", **s}


def ops(depth):
    leaf = st.one_of(
        run_spec(),
        run_spec(),
        st.builds(lambda i, o: {"op": o, "i": i}, st.integers(0, N_CB - 1), st.sampled_from(["register", "unregister"])),
    )
    if depth == 0:
        return st.lists(leaf, min_size=1, max_size=3)
    scope = st.builds(
        lambda who, form, body, boom: {"op": "scope", "who": who, "form": form, "body": body, "raise": boom},
        st.lists(st.integers(0, N_CB - 1), min_size=1, max_size=2, unique=True),
        st.sampled_from(["with", "add", "add", "local", "local_given"]),
        ops(depth - 1),
        st.booleans(),
    )
    return st.lists(st.one_of(leaf, leaf, scope), min_size=1, max_size=4)


CASE = st.fixed_dictionaries({
    "masks": st.lists(st.lists(st.sampled_from(PHASES), min_size=1, max_size=4, unique=True), min_size=N_CB, max_size=N_CB),
    "forms": st.lists(st.sampled_from(["object", "object", "sub", "tuple"]), min_size=N_CB, max_size=N_CB),
    "ops": ops(2),
})


@R.facet("histories", CASE, quick=2500, thorough=150000, weight=4, secs=90)
def _(c):
    from wax.gym.callbacks.callbacks import Callback, add_callbacks, local_callbacks

    saved, Callback.active = Callback.active, type(Callback.active)()
    try:
        w = World([set(m) for m in c["masks"]], c["forms"])
        registered = set()
        scopes = []
        tags = set()

        def active():
            out = set(registered)
            for s in scopes:
                out |= set(s)
            return sorted(out)

        def do_run(op):
            g = active()
            local = op["local"]
            acts = g if local is None else local
            first = w.runs
            run, env, result = w.execute(op)
            w.stop = w.fault = None
            started = w.runs - first > 1
            w.inner = None
            check_run(w, op, acts, local is not None, run, env, result)
            if started:
                inner_local = op["inner"][3]
                # callbacks active around the outer run are used by that run only
                ia = inner_local if inner_local is not None else ([] if local is None else g)
                log = [e for e in w.log if e[0] == first + 1]
                fake = {"n": 2, "local": inner_local}
                want, _ = events_of(ia, None, w.masks, fake, first + 1)
                count = {}
                for _, ph, t, i, _d in log:
                    count[(ph, t, i)] = count.get((ph, t, i), 0) + 1
                exp = {(ph, t, i): 1 for ph, t, _ in want for i in ia if ph in w.masks[i]}
                assert count == exp, f"nested run: events {count}, expected {exp}"
                tags.add("nested run")
            if len(acts) >= 2 and op["n"] >= 2:
                tags.add("several callbacks")
            if result is Boom:
                tags.add("fault in a callback")

        def walk(body):
            for op in body:
                if op["op"] == "run":
                    do_run(op)
                elif op["op"] == "scope" and op["form"] in ("local", "local_given"):
                    # the outer callbacks are set aside inside, and come back
                    given = [w.cbs[i] for i in op["who"]] if op["form"] == "local_given" else None
                    outer, outer_scopes = set(registered), list(scopes)
                    before = set(Callback.active)
                    try:
                        with local_callbacks(given) as got:
                            if given is not None:
                                assert len(list(got)) == len(given), "the given callbacks are not handed on"
                            else:
                                assert set(got) == before, f"{len(before)} callbacks active, {len(got)} handed on"
                                registered.clear()
                                scopes.clear()
                                tags.add("set aside")
                            walk(op["body"])
                            if op["raise"]:
                                raise Boom
                    except Boom:
                        assert op["raise"]
                    if given is None:
                        registered.clear()
                        registered.update(outer)
                        scopes[:] = outer_scopes
                        assert set(Callback.active) == before, "the outer callbacks did not come back"
                elif op["op"] == "scope":
                    who = op["who"]
                    if op["form"] == "with":
                        # tuples cannot be entered
                        who = [i for i in who if c["forms"][i] != "tuple"][:1]
                        if not who:
                            continue
                        cm = w.cbs[who[0]]
                    else:
                        cm = add_callbacks(*[w.cbs[i] for i in who])
                    try:
                        with cm as got:
                            if op["form"] == "with":
                                assert got is w.cbs[who[0]], "with does not give the callback"
                            if set(who) & set(active()):
                                tags.add("nested in itself")
                            scopes.append(who)
                            tags.add("scope")
                            walk(op["body"])
                            if op["raise"]:
                                tags.add("scope left by an exception")
                                raise Boom
                    except Boom:
                        assert op["raise"]
                    scopes.pop()
                else:
                    i = op["i"]
                    cb = w.cbs[i]
                    if c["forms"][i] == "tuple" or any(i in s for s in scopes):
                        continue
                    if op["op"] == "register":
                        cb.register()
                        registered.add(i)
                    elif i in registered:
                        cb.unregister()
                        registered.discard(i)

        walk(c["ops"])
        # nothing left over
        do_run({"op": "run", "n": 2, "local": None})
        for i in sorted(registered):
            w.cbs[i].unregister()
        registered.clear()
        do_run({"op": "run", "n": 1, "local": None})
    finally:
        Callback.active = saved
    return ", ".join(sorted(tags)) or None


# ------------------------------------------------------------------ ready-made callbacks


class DataEnv:
    def __init__(self, rows, rewards, shape, tail):
        self.rows, self.rewards, self.shape, self.tail, self.t = rows, rewards, shape, tail, 0

    def wrap(self, row):
        r = np.asarray(row)
        return {
            "array": lambda: r,
            "dict": lambda: {"a": r, "b": {"c": r[0]}},
            "tuple": lambda: (r, r.sum()),
            "frame": lambda: pd.DataFrame(r[None], columns=list("xyz"), index=[self.t]),
            "series": lambda: pd.Series(r, index=list("xyz")),
            "xarray": lambda: xr.DataArray(r[None], dims=("time", "k")),
        }[self.shape]()

    def reset(self):
        return self.wrap(self.rows[0])

    def step(self, action):
        self.t += 1
        if self.t >= len(self.rows):
            return None, 0, True, {}
        return self.wrap(self.rows[self.t]), self.rewards[self.t], False, {}

    def close(self):
        pass

    def __len__(self):
        return len(self.rows)


def value(obs):
    leaf = obs
    while isinstance(leaf, (dict, tuple)):
        leaf = leaf["a"] if isinstance(leaf, dict) else leaf[0]
    return np.asarray(leaf, np.float64).reshape(-1)


@R.facet(
    "record",
    st.fixed_dictionaries({
        "rows": st.integers(2, 8).flatmap(lambda T: matrix(T, 4, nan=True)),
        "shape": st.sampled_from(["array", "dict", "tuple", "frame", "series", "xarray"]),
        "obs": st.booleans(), "action": st.booleans(),
        "stop": st.none() | st.integers(1, 9),
        "act": st.sampled_from(["array", "dict"]),
        "how": st.sampled_from(["with", "local", "register"]),
        "stop_first": st.booleans(),
    }),
    quick=500, thorough=20000, weight=2,
)
def _(c):
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.callbacks.record import Record
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll

    a = np.array(c["rows"], np.float64)
    rows, rewards = a[:, :3], a[:, 3]
    env = DataEnv(rows, rewards, c["shape"], True)
    acts = []

    def agent(obs):
        v = value(obs) * 2
        acts.append(v)
        return v if c["act"] == "array" else {"move": v, "norm": np.nansum(v)}

    rec = Record(return_obs=c["obs"], return_action=c["action"])
    cbs = [rec] + ([Stop(c["stop"])] if c["stop"] else [])
    if c["stop_first"]:
        cbs = cbs[::-1]
    saved, Callback.active = Callback.active, type(Callback.active)()
    try:
        if c["how"] == "local":
            gym_unroll(agent, env, callbacks=cbs)
        elif c["how"] == "register":
            [b.register() for b in cbs]
            gym_unroll(agent, env)
            [b.unregister() for b in cbs]
        elif len(cbs) == 2:
            with cbs[0], cbs[1]:
                gym_unroll(agent, env)
        else:
            with cbs[0]:
                gym_unroll(agent, env)
        assert not Callback.active
    finally:
        Callback.active = saved
    n = len(rows) - 1
    if c["stop"]:
        n = min(n, c["stop"])
    assert len(acts) == (n if c["stop"] and c["stop"] <= n else n + 1), f"{len(acts)} actions for {n} recorded steps"
    out = rec.get_outputs()
    assert list(out._fields) == ["reward"] + ["obs"] * c["obs"] + ["action"] * c["action"]
    same(np.asarray(out.reward), rewards[1 : n + 1], "rewards")
    if c["obs"]:
        o = out.obs
        want = rows[1 : n + 1]
        if c["shape"] == "dict":
            same(o["b"]["c"], want[:, 0], "obs leaf")
            o = o["a"]
        elif c["shape"] == "tuple":
            same(o[1], want.sum(axis=1), "obs leaf")
            o = o[0]
        elif c["shape"] == "frame":
            assert list(o.index) == list(range(1, n + 1)) and list(o.columns) == list("xyz")
        elif c["shape"] == "xarray":
            assert o.dims == ("time", "k")
        same(np.asarray(o).reshape(want.shape), want, "observations")
    if c["action"]:
        x = out.action
        want = np.stack(acts[:n])
        if c["act"] == "dict":
            same(x["norm"], np.nansum(want, axis=1), "action leaf")
            x = x["move"]
        same(x, want, "actions")
    return "several recorded steps" if n >= 2 else None


@R.facet("progress", st.fixed_dictionaries({"n": st.integers(1, 8), "stop": st.none() | st.integers(1, 6),
                                             "sized": st.booleans(), "how": st.sampled_from(["with", "local"])}),
         quick=120, thorough=2000)
def _(c):
    from unittest import mock

    import tqdm.std

    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.callbacks.progressbar import ProgressBar
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll

    count = {"update": 0, "close": 0, "total": []}
    init, upd, close = tqdm.std.tqdm.__init__, tqdm.std.tqdm.update, tqdm.std.tqdm.close

    def i(self, iterable=None, desc=None, total=None, **kw):
        count["total"].append(total)
        init(self, iterable, desc, total, disable=True)

    def u(self, n=1):
        count["update"] += n

    def cl(self):
        count["close"] += 1

    env = Env(0, c["n"], True)
    if not c["sized"]:
        class Unsized:
            def __init__(self, e):
                self.reset, self.step, self.close = e.reset, e.step, e.close
        env = Unsized(env)
    bar = ProgressBar()
    stop = [Stop(c["stop"])] if c["stop"] else []
    saved, Callback.active = Callback.active, type(Callback.active)()
    try:
        with mock.patch.object(tqdm.std.tqdm, "__init__", i), mock.patch.object(tqdm.std.tqdm, "update", u), \
                mock.patch.object(tqdm.std.tqdm, "close", cl):
            if c["how"] == "local":
                gym_unroll(lambda o: o, env, callbacks=[bar] + stop)
            else:
                [s.register() for s in stop]
                with bar as b:
                    assert b is bar, "with does not give the callback"
                    gym_unroll(lambda o: o, env)
    finally:
        Callback.active = saved
    n = min(c["n"], c["stop"] or c["n"])
    assert count["update"] == n, f"{count} for {n} steps"
    assert count["total"] == [c["n"] if c["sized"] else None], count
    assert count["close"] >= 1
    return "several steps" if n > 1 else None
