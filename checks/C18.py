"""C18: callbacks see every event once, in order, with the real data; the ramping callback follows its schedule."""
import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import callbacks as cbs
from gym_electric_motor import reference_generators as rgs
from gym_electric_motor.core import Callback, ElectricMotorEnvironment, ElectricMotorVisualization
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C18"
RULE = (
    "events: one of the 54 drives with any configuration, up to three recording callbacks and two recording "
    "visualisations (passed as instance, list or class), under arbitrary histories of seeded and unseeded resets, steps, "
    "steps after the end of an episode, renders and closes; the complete event log is compared with the one derived from "
    "what the environment returned, and the returned data with that of an environment without observers; non-trivial if "
    "at least two observers saw at least 5 steps. ramp: the ramping callback with arbitrary settings over step and reset "
    "histories; references with a huge variance show the margins in force; non-trivial if at least two updates were due."
)


class Rec(Callback):
    def __init__(self, log, name):
        super().__init__()
        self.log, self.name = log, name

    def set_env(self, env):
        super().set_env(env)
        self.log.append((self.name, "set_env", env))

    def on_reset_begin(self):
        self.log.append((self.name, "reset_begin"))

    def on_reset_end(self, state, reference):
        self.log.append((self.name, "reset_end", state, reference, np.copy(state), np.copy(reference)))

    def on_step_begin(self, k, action):
        self.log.append((self.name, "step_begin", k, action, np.copy(action)))

    def on_step_end(self, k, state, reference, reward, terminated):
        self.log.append((self.name, "step_end", k, state, reference, reward, terminated, np.copy(state), np.copy(reference)))

    def on_close(self):
        self.log.append((self.name, "close"))


class RecVisu(ElectricMotorVisualization):
    def __init__(self, log=None, name=None, **_):
        super().__init__()
        self.log, self.name = log, name

    set_env, on_reset_begin, on_reset_end = Rec.set_env, Rec.on_reset_begin, Rec.on_reset_end
    on_step_begin, on_step_end, on_close = Rec.on_step_begin, Rec.on_step_end, Rec.on_close

    def set_env(self, env):
        self._env = env
        self.log.append((self.name, "set_env", env))

    def render(self):
        self.log.append((self.name, "render"))


def eq(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def by_core(spec, **kw):
    """the environment class itself, which takes any number of visualisations as instances or classes"""
    motor = g.split(spec["id"])[2]
    e = g.build({k: v for k, v in spec.items() if k not in ("ref", "reward", "constraints", "filter")})
    ref = g.reference(spec.get("ref") or dict(kind="wiener", state="omega"), "omega")
    rew = g.rfs.WeightedSumOfErrors(**(spec.get("reward") or dict(reward_weights=dict(torque=1.0))))
    return ElectricMotorEnvironment(
        physical_system=e.physical_system,
        reference_generator=ref,
        reward_function=rew,
        constraints=tuple(spec["constraints"]) if spec.get("constraints") is not None else tuple(g.CURRENTS[motor]),
        state_filter=spec.get("filter"),
        **kw,
    )


def run_events(case):
    spec = dict(case["spec"])
    log = []
    names = [f"c{i}" for i in range(case["n"])]
    cb = [Rec(log, n) for n in names]
    vn = [f"v{i}" for i in range(case["v"])]
    form = case["form"]
    if len(vn) == 1 and form == 0:
        visu = RecVisu(log, vn[0])
    elif not vn:
        visu = (None, (), [], None)[form]
    elif form == 1:  # a class is built by the environment

        class V0(RecVisu):
            def __init__(self, **kw):
                super().__init__(log, vn[0], **kw)

        visu = [V0] + [RecVisu(log, n) for n in vn[1:]]
    else:
        visu = tuple(RecVisu(log, n) for n in vn) if form == 2 else [RecVisu(log, n) for n in vn]
    if (len(vn) == 1 and form == 0) or (vn and form == 3) or (form == 2 and case["n"] % 2):
        mk = lambda **kw: g.build(spec, **kw)  # noqa: E731
    else:
        mk = lambda **kw: by_core(spec, **kw)  # noqa: E731
    env = mk(callbacks=tuple(cb) if form % 2 else cb, visualization=visu)
    plain = mk(visualization=g.NoVisu())
    # one callback object must not be called twice per event; the observers in their order: callbacks, visualisations
    obs = names + vn
    exp = [(n, "set_env") for n in obs]
    check([e[:2] for e in log] == exp, lambda: f"events at the creation: {[e[:2] for e in log]} instead of {exp}")
    check(all(e[2] is env for e in log), "set_env passes another environment")
    names_y = list(env.physical_system.state_names)
    filt = spec.get("filter") or names_y
    idx = [names_y.index(s) for s in filt]
    pos, steps, done, held, resets = len(log), 0, True, [], 0
    k = 0

    def new():
        nonlocal pos
        out = log[pos:]
        pos = len(log)
        return out

    def grouped(events, kinds):
        want = [(n, kind) for kind in kinds for n in obs]
        check([e[:2] for e in events] == want, lambda: f"{spec['id']}: events {[e[:2] for e in events]} instead of {want}")

    acts = []
    for op in case["ops"]:
        if op[0] == "step" and done and resets and len(op[1]) % 3:
            op = ["reset", None]
        if op[0] == "reset":
            seed = op[1]
            (s, r), _ = env.reset(seed=seed) if seed is not None else env.reset()
            (s2, r2), _ = plain.reset(seed=seed) if seed is not None else plain.reset()
            first = resets == 0
            resets += 1
            if seed is not None:
                seeded = True
            elif first:
                seeded = False
            if seeded:
                check(eq(s, s2) and eq(r, r2), lambda: f"{spec['id']}: observing changes the reset: {s}, {r} instead of {s2}, {r2}")
            ev = new()
            grouped(ev, ["reset_begin", "reset_end"])
            for e in ev[len(obs) :]:
                check(eq(np.asarray(e[2])[idx], s), lambda: f"{spec['id']}: reset_end got the state {e[2]}, returned was {s}")
                check(len(e[2]) == len(names_y) and len(e[3]) == len(names_y), "reset_end: wrong length of state or reference")
                held += [(e[2], e[4]), (e[3], e[5])]
            k, done, acts = 0, False, r
        elif op[0] == "step":
            a = g.action(env.action_space, op[1])
            if done:
                try:
                    env.step(a)
                    check(False, f"{spec['id']}: a step without reset is accepted")
                except AssertionError:
                    pass
                check(not new(), "events of a rejected step")
                continue
            keep = np.copy(a)
            (s, r), rew, term, trunc, _ = env.step(a)
            check(eq(a, keep), "the action is modified")
            if seeded:
                (s2, r2), rew2, term2, _, _ = plain.step(a)
                check(
                    eq(s, s2) and eq(r, r2) and eq(rew, rew2) and term == term2,
                    lambda: f"{spec['id']}: observing changes the step: {s}, {r}, {rew} instead of {s2}, {r2}, {rew2}",
                )
            else:
                plain.reset()
                plain.step(a)
            ev = new()
            grouped(ev, ["step_begin", "step_end"])
            n = len(obs)
            for e in ev[:n]:
                check(e[2] == k and eq(e[3], a), lambda: f"{spec['id']}: step_begin got k={e[2]}, action {e[3]}; true: {k}, {a}")
            k += 1
            for e in ev[n:]:
                check(e[2] == k, lambda: f"{spec['id']}: step_end got k={e[2]} at step {k}")
                check(eq(np.asarray(e[3])[idx], s), lambda: f"{spec['id']}: step_end got the state {e[3]}, returned was {s}")
                check(e[5] == rew and bool(e[6]) == bool(term), lambda: f"{spec['id']}: step_end got {e[5]}, {e[6]}; returned {rew}, {term}")
                # the reference of this step is the one observed before
                ref = np.asarray(e[4])[np.asarray(env.reference_generator.referenced_states, bool)]
                if np.size(acts) == len(ref):
                    want = np.asarray(acts, float).ravel()
                    order = [names_y.index(x) for x in env.reference_generator.reference_names]
                    got = np.asarray(e[4])[order]
                    check(np.allclose(got, want, rtol=1e-12, atol=1e-12), lambda: f"{spec['id']}: step_end got the reference {got}, announced was {want}")
                held += [(e[3], e[7]), (e[4], e[8])]
            acts, done = r, bool(term)
            steps += 1
        elif op[0] == "render":
            env.render()
            ev = new()
            want = [(n, "render") for n in vn]
            check([e[:2] for e in ev] == want, lambda: f"events of a render: {[e[:2] for e in ev]}")
        elif op[0] == "close":
            env.close()
            grouped(new(), ["close"])
            break
    for obj, copy in held:
        check(eq(obj, copy), lambda: f"{spec['id']}: data passed to an observer changed later: {copy} became {obj}")
    return steps >= 5 and len(obs) >= 2, [g.split(spec["id"])[2], f"observers{len(obs)}", f"resets{min(resets, 3)}"]


op = st.one_of(
    *[st.tuples(st.just("step"), g.UVEC).map(list)] * 6,
    st.tuples(st.just("reset"), st.one_of(st.none(), st.integers(0, 2**31))).map(list),
    st.just(["render"]),
)
event_cases = st.fixed_dictionaries(
    dict(
        spec=st.tuples(
            g.specs(features=("tau", "solver", "supply", "mp", "load", "ref", "reward", "constraints", "wrappers", "filter"), p_feature=0.3),
            st.sampled_from([True, True, True, False]),  # mostly without constraints: longer episodes
        ).map(lambda t: dict(t[0], constraints=[]) if t[1] else t[0]),
        n=st.integers(0, 3),
        v=st.integers(0, 2),
        form=st.integers(0, 3),
        ops=st.tuples(
            st.lists(op, max_size=2),
            st.integers(0, 2**31),
            st.lists(op, min_size=9, max_size=40),
            st.booleans(),
        ).map(lambda t: [o for o in t[0]] + [["reset", t[1]]] + t[2] + ([["close"]] if t[3] else [])),
    )
)


# ------------------------------------------------------------------------------------------------------------- ramping
def run_ramp(case):
    state, lens = case["state"], (1, 1)
    sub = lambda: rgs.WienerProcessReferenceGenerator(  # noqa: E731
        reference_state=state, sigma_range=(1e9, 1e9), episode_lengths=lens
    )
    rg = sub() if case["subs"] == 1 else rgs.SwitchedReferenceGenerator([sub() for _ in range(case["subs"])], super_episode_length=(2, 5))
    kw = {}
    init, top = (-0.1, 0.1), (-1.0, 1.0)
    if case.get("init"):
        kw["initial_limit_margin"] = init = tuple(case["init"])
    if case.get("top"):
        kw["maximum_limit_margin"] = top = tuple(case["top"])
    for n in ("step_size", "update_time", "update_freq"):
        if case.get(n) is not None:
            kw[n] = case[n]
    step, freq, when = kw.get("step_size", 0.1), kw.get("update_freq", 10), kw.get("update_time", "episode")
    ramp = cbs.RampingLimitMargin(**kw)
    log = []
    cb = [Rec(log, "r"), ramp] if case["others"] else [ramp]
    env = g.build(dict(id=case["id"]), reference_generator=rg, callbacks=cb, constraints=())
    plain_text = f"{kw}"

    def margin(j):
        lo, hi = init
        for _ in range(min(j, 10000)):
            if (lo, hi) == top:
                break
            lo, hi = max(lo - step, top[0]), min(hi + step, top[1])
        return lo, hi

    env.reset(seed=case["seed"])
    resets, steps = 1, 0
    offsets = {0, 1}  # whether the very first reset counts as an episode
    hits = set()
    for n in case["history"]:
        for j in range(n):
            (s, r), _, term, _, _ = env.step(g.action(env.action_space, [500]))
            # margins in force when this value was drawn: after the updates of all earlier steps and resets
            v = float(r[0])
            ok = set()
            for o in offsets:
                u = steps // freq if when == "step" else (resets - o) // freq
                lo, hi = margin(u)
                if min(abs(v - lo), abs(v - hi)) < 1e-9:
                    ok.add(o)
            check(
                ok,
                lambda: f"{plain_text}: after {steps} steps and {resets} resets the references are drawn from a margin that "
                f"ends at {v} instead of {margin(steps // freq if when == 'step' else resets // freq)}",
            )
            offsets = ok
            hits.add(v > 0)
            check(top[0] - 1e-9 <= v <= top[1] + 1e-9, lambda: f"{plain_text}: reference {v} beyond the maximum margin {top}")
            steps += 1
        env.reset()
        resets += 1
    due = (steps if when == "step" else resets) // freq
    return due >= 2 and steps >= 4, [when, f"due{min(due, 6)}", "max" if margin(due) == top else "ramping"]


def _margins(t):
    """an initial margin inside of the maximum one"""
    a, b, c, d = sorted(t)
    return dict(init=[b, c], top=[a, d])


ramp_cases = st.tuples(
    g.maybe(
        dict(
            id=st.sampled_from(["Cont-TC-PMSM-v0", "Cont-SC-PermExDc-v0", "Finite-CC-ExtExDc-v0", "Finite-SC-SCIM-v0"]),
            state=st.sampled_from(["omega", "torque"]),
            subs=st.integers(1, 3),
            others=st.booleans(),
            seed=st.integers(0, 2**31),
            history=st.lists(st.sampled_from([0, 1, 2, 3, 5, 9]), min_size=3, max_size=14),
            update_time=st.sampled_from(["step", "step", "episode", None]),
            update_freq=st.sampled_from([1, 1, 2, 3, 4, 7, None]),
        ),
        dict(step_size=st.one_of(st.sampled_from([0.1, 0.25, 0.3, 2.0]), g.f(0.001, 0.5))),
    ),
    st.one_of(st.none(), st.lists(g.f(-1, 1), min_size=4, max_size=4, unique=True).map(_margins)),
).map(lambda t: {**t[0], **(t[1] or {})})

SUBS = [
    Sub("events", event_cases, run_events, 900, 15000, shards=4),
    Sub("ramp", ramp_cases, run_ramp, 400, 8000, shards=4),
]
