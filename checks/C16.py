"""C16: constraint violations are detected exactly and end the episode."""
import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import physical_system_wrappers as psw
from gym_electric_motor.constraints import Constraint, LimitConstraint, SquaredConstraint
from gym_electric_motor.core import ConstraintMonitor
from lib import gemlib as g
from lib.harness import Sub, Violation, check

PROPERTY = "C16"
RULE = (
    "degree: a constraint monitor with any mix of limit constraints (names, instances, all states), squared constraints, "
    "soft user functions and user constraint objects and any merge rule, asked for the degree of arbitrary states inside, "
    "on and outside of the limits, against an independent evaluation; non-trivial if at least one constraint is violated "
    "by one state and none by another. env: complete environments with such constraints (passed as list or as monitor) "
    "driven by random actions; non-trivial if an episode ended by a violation or a soft constraint was active."
)


class UserConstraint(Constraint):
    """A user-defined constraint object reading the drive's limits"""

    def __init__(self, state, threshold):
        self.state, self.threshold = state, threshold
        self.limit = self.idx = None
        self.modules = 0

    def set_modules(self, ps):
        self.modules += 1
        self.idx = list(ps.state_names).index(self.state)
        self.limit = ps.limits[self.idx]

    def __call__(self, state):
        return float(abs(state[self.idx] * self.limit) > self.threshold * self.limit)


def soft(names, d):
    i = names.index(d["state"])

    def degree(state):
        return float(min(1.0, max(0.0, (abs(state[i]) - d["from"]) / d["width"])) * d["max"])

    return degree


def build(descs, names, as_list):
    """-> (limit names, additional constraints, list of evaluators)"""
    pos = {n: i for i, n in enumerate(names)}
    limit, extra, ev = [], [], []
    for d in descs:
        k = d["kind"]
        states = [s for s in d.get("states", []) if s in pos]
        if k == "limit":
            limit += [s for s in states if s not in limit]
        elif k == "all":
            limit.append("all_states")
        elif k == "limit_obj":
            extra.append(LimitConstraint(tuple(states) if d["tuple"] else list(states)))
            ev.append(lambda s, states=states: 1.0 if any(s[pos[n]] > 1 or s[pos[n]] < -1 for n in states) else 0.0)
        elif k == "all_obj":
            extra.append(LimitConstraint(["all_states"]) if d["tuple"] else LimitConstraint())
            ev.append(lambda s: 1.0 if (np.abs(s) > 1).any() else 0.0)
        elif k == "squared":
            extra.append(SquaredConstraint(tuple(states) if d["tuple"] else list(states)))
            ev.append(lambda s, states=states: 1.0 if sum(float(s[pos[n]]) ** 2 for n in states) > 1 else 0.0)
        elif k == "soft":
            if d["state"] not in pos:
                continue
            f = soft(names, d)
            extra.append(f)
            ev.append(f)
        elif k == "user":
            if d["state"] not in pos:
                continue
            extra.append(UserConstraint(d["state"], d["from"]))
            ev.append(lambda s, d=d: 1.0 if abs(s[pos[d["state"]]]) > d["from"] else 0.0)
    if limit:
        obs = names if "all_states" in limit else limit
        ev.append(lambda s: 1.0 if any(s[pos[n]] > 1 or s[pos[n]] < -1 for n in obs) else 0.0)
    return limit, extra, ev


def mean_merge(*a):
    """accepts the degrees one by one or as one list"""
    if len(a) == 1 and isinstance(a[0], (list, tuple, np.ndarray)):
        a = a[0]
    return float(sum(a)) / len(a)


MERGE = {"max": "max", "product": "product", "user": mean_merge}


def merged(ds, how):
    if not ds:
        return 0.0
    if how == "max":
        return max(ds)
    if how == "product":
        p = 1.0
        for d in ds:
            p *= 1.0 - d
        return 1.0 - p
    return mean_merge(ds)


def eq(a, b):
    return abs(a - b) <= 1e-12


def ambiguous(s, descs, names, tol=1e-9):
    """a squared sum or threshold within rounding of its bound"""
    pos = {n: i for i, n in enumerate(names)}
    for d in descs:
        if d["kind"] == "squared":
            q = sum(float(s[pos[n]]) ** 2 for n in d["states"] if n in pos)
            if 0 < abs(q - 1) < tol:
                return True
        if d["kind"] == "user" and d["state"] in pos and abs(abs(s[pos[d["state"]]]) - d["from"]) < tol:
            return True
    return False


def run_degree(case):
    env = _env(case["id"], case["unit"])
    y = env.physical_system
    names = list(y.state_names)
    limit, extra, ev = build(case["cons"], names, False)
    cm = ConstraintMonitor(
        limit_constraints=tuple(limit) if case["tuple"] else limit, additional_constraints=extra, merge_violations=MERGE[case["merge"]]
    )
    cm.set_modules(y)
    seen = set()
    for us in case["points"]:
        s = np.array([us[i % len(us)] for i in range(len(names))])
        if ambiguous(s, case["cons"], names):
            continue
        ds = [float(f(s)) for f in ev]
        want = merged(ds, case["merge"])
        sc = s.copy()
        got = cm.check_constraints(s)
        check(
            eq(float(got), want),
            lambda: f"{case['id']}: violation degree {got} instead of {want} (single degrees {ds}, merge {case['merge']}) for {dict(zip(names, s))}, constraints {case['cons']}",
        )
        check(np.array_equal(s, sc), "the state is changed")
        check(eq(float(cm.check_constraints(-s)), merged([float(f(-s)) for f in ev], case["merge"])), lambda: f"degree of the negated state {dict(zip(names, -s))}")
        seen.add(any(d >= 1 for d in ds))
    return len(seen) == 2, [case["merge"]] + sorted({d["kind"] for d in case["cons"]})


_ENVS = {}


UNIT = ["cos(epsilon)", "sin(epsilon)"]


def _env(i, unit=False):
    """unit: with states whose limit is one, among others"""
    if (i, unit) not in _ENVS:
        motor, kw = g.split(i)[2], {}
        if unit and motor in g.DC:
            kw["motor"] = g.MOTOR_CLS[motor](limit_values={c: 1.0 for c in g.MOTOR_CLS[motor].CURRENTS[:1]})
        elif unit:
            kw["physical_system_wrappers"] = (psw.CosSinProcessor("epsilon"),)
        _ENVS[i, unit] = g.build(dict(id=i), **kw)
    return _ENVS[i, unit]


V = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, float(np.nextafter(1.0, 2)), -float(np.nextafter(1.0, 2)), 0.5, 2 ** -0.5, 0.6, 0.8, -0.8]),
    g.f(-1, 1),
    g.f(-1.6, 1.6),
)  # fmt: skip


def cons(names):
    sub = st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True)
    par = {"state": st.sampled_from(names), "from": g.f(0, 0.9), "width": g.f(0.05, 0.5), "max": st.sampled_from([1.0, 1.0, 0.7, 0.9999, 1 - 1e-9])}
    one = st.one_of(
        st.fixed_dictionaries(dict(kind=st.just("limit"), states=sub)),
        st.fixed_dictionaries(dict(kind=st.just("limit_obj"), states=sub, tuple=st.booleans())),
        st.fixed_dictionaries(dict(kind=st.just("squared"), states=sub, tuple=st.booleans())),
        st.fixed_dictionaries(dict(kind=st.just("soft"), **par)),
        st.fixed_dictionaries(dict(kind=st.just("user"), **par)),
        st.sampled_from([dict(kind="all"), dict(kind="all_obj", tuple=True), dict(kind="all_obj", tuple=False)]),
    )
    return st.lists(one, max_size=4)


degree = st.tuples(g.ids, st.booleans()).flatmap(
    lambda x: st.fixed_dictionaries(
        dict(
            id=st.just(x[0]), unit=st.just(x[1]), cons=cons(g.SYSTEM_STATES[g.split(x[0])[2]] + (UNIT if x[1] and g.split(x[0])[2] not in g.DC else [])), merge=st.sampled_from(sorted(MERGE)), tuple=st.booleans(),
            points=st.lists(st.lists(V, min_size=1, max_size=12), min_size=1, max_size=10),
        )
    )
)  # fmt: skip


# ---------------------------------------------------------------------------------------------------------------- env
def run_env(case):
    spec = dict(case["spec"])
    probe = g.build(dict(spec, constraints=[]))
    names = list(probe.physical_system.state_names)
    if len(set(names)) < len(names):
        return False, ["two summed currents"]
    limit, extra, ev = build(case["cons"], names, True)
    merge = case["merge"] if case["monitor"] else "max"
    if case["monitor"]:
        c = ConstraintMonitor(limit_constraints=limit, additional_constraints=extra, merge_violations=MERGE[merge])
    else:
        c = list(limit) + list(extra)
        if case["mix"]:
            c = list(extra) + list(limit)
        c = tuple(c) if case["tuple"] else c
    spec.pop("constraints", None)
    env = g.build(spec, constraints=c)
    y = env.physical_system
    env.reset(seed=case["seed"])
    n = ends = softs = 0
    since = 0
    for a in g.expand(env.action_space, case["plan"]):
        (s, _), rew, term, trunc, _ = env.step(a)
        since += 1
        if not np.isfinite(s).all():
            break
        check(trunc is False or trunc == False, lambda: f"truncated flag {trunc}")  # noqa: E712
        if not ambiguous(s, case["cons"], names):
            ds = [float(f(s)) for f in ev]
            d = merged(ds, merge)
            if not (merge != "max" and abs(d - 1) < 1e-12):
                check(
                    bool(term) == (d >= 1.0),
                    lambda: f"{spec['id']}: terminated={term} with the violation degree {d} (single degrees {ds}) in step {since} of the "
                    f"episode; state {dict(zip(names, s))}, constraints {case['cons']}",
                )
            else:
                check(bool(term) == (max(ds) >= 1.0) or merge == "user", lambda: f"{spec['id']}: terminated={term}, single degrees {ds}")
            got = float(env.constraint_monitor.check_constraints(np.array(s)))
            check(eq(got, d), lambda: f"{spec['id']}: the monitor reports {got} instead of {d}")
            softs += 0 < d < 1
        n += 1
        if term:
            ends += 1
            try:
                env.step(a)
            except AssertionError:
                pass
            else:
                raise Violation(f"{spec['id']}: a step is accepted after the episode has ended by a violation")
            env.reset()
            since = 0
    return ends > 0 or softs > 0, [g.split(spec["id"])[2], merge, "ended" if ends else "open", "monitor" if case["monitor"] else "list"]


@st.composite
def _env_cases(draw):
    spec = draw(g.specs(features=("load", "tau", "supply", "minit", "wrappers"), p_feature=0.5))
    motor = g.split(spec["id"])[2]
    names = ["omega", "torque", "u_sup"] + g.CURRENTS[motor] * 3 + [n for n in g.SYSTEM_STATES[motor] if n != "epsilon"]
    # low limits make violations frequent
    if draw(st.booleans()):
        k = draw(g.log(0.02, 1))
        keys = [c for c in ("i", "i_a", "i_e") if c == "i" or c in g.CURRENTS[motor]]
        spec["limits"] = {c: k * v for c, v in LIMI[motor].items() if c in keys}
        spec["nominal"] = {c: 0.99 * v for c, v in spec["limits"].items()}
        spec.pop("minit", None)
    return dict(
        spec=spec, cons=draw(cons(names)), merge=draw(st.sampled_from(sorted(MERGE))), monitor=draw(st.booleans()), mix=draw(st.booleans()),
        tuple=draw(st.booleans()), seed=draw(st.integers(0, 10**5)), plan=draw(g.segments(10, 14)),
    )  # fmt: skip


LIMI = {m: dict(i=210.0, i_a=210.0, i_e=210.0) for m in g.DC}
LIMI["PermExDc"] = dict(i=210.0)
LIMI.update(PMSM=dict(i=400.0), SynRM=dict(i=18.0), EESM=dict(i=150.0, i_e=150.0), SCIM=dict(i=5.5), DFIM=dict(i=9.0))

SUBS = [
    Sub("degree", degree, run_degree, 3000, shards=4),
    Sub("env", _env_cases(), run_env, 800, shards=6),
]
