"""C15: the reward equals the documented weighted error formula and stays in range."""
import json

import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import reward_functions as rfs
from gym_electric_motor.core import ConstraintMonitor
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C15"
RULE = (
    "formula: WeightedSumOfErrors on one of the 54 drives with arbitrary weights (dict, list, array, default), powers, "
    "bias, normalisation and discount factor, states and references inside their spaces and violation degrees, against "
    "the documented formula, the announced range and the documented violation reward; non-trivial if a weighted error is "
    "positive. env: every reward of complete environments with soft and hard constraints, recomputed from the returned "
    "data; non-trivial if at least 8 steps ran."
)


def expect(weights, names, referenced, normed, gamma, power, bias, violation, space):
    """documented weights, powers, bias, range and violation reward"""
    n = len(names)
    if weights is None:
        ref = [s for s, r in zip(names, referenced) if r] or list(names)
        w = np.array([1.0 / len(ref) if s in ref else 0.0 for s in names])
    elif isinstance(weights, dict):
        w = np.array([float(weights.get(s, 0.0)) for s in names])
    else:
        w = np.array(weights, float)
    if isinstance(power, dict):
        p = np.array([float(power.get(s, 0.0)) for s in names])
    elif isinstance(power, (list, np.ndarray)):
        p = np.array(power, float)
    else:
        p = np.full(n, float(power))
    total = w.sum()
    if normed:
        w, total = w / total, 1.0
    b = total if bias == "positive" else bias
    lo, hi = -total + b, b
    v = min(lo / (1 - gamma), 0.0) if violation is None else violation
    return w, p, b, (lo, hi), v


def formula(w, p, b, length, s, r):
    return -float(sum(wi * (abs(a - c) / l) ** pi for wi, pi, a, c, l in zip(w, p, s, r, length) if wi)) + b


def _weights(desc, names):
    if desc is None:
        return None
    k, vals = desc["form"], [float(v) for v in desc["vals"]]
    full = [vals[i % len(vals)] for i in range(len(names))]
    mask = [bool(desc["mask"] >> i & 1) for i in range(len(names))]
    full = [v if m else 0.0 for v, m in zip(full, mask)]
    if sum(full) <= 0:
        full[0] = 1.0
    if k == "list":
        return full
    if k == "array":
        return np.array(full)
    d = {s: v for s, v in zip(names, full) if v or desc["zeros"]}
    return dict(reversed(list(d.items()))) if desc["rev"] else d


def _power(desc, names):
    if desc["form"] == "scalar":
        return desc["vals"][0]
    full = [desc["vals"][i % len(desc["vals"])] for i in range(len(names))]
    if desc["form"] == "list":
        return full
    if desc["form"] == "array":
        return np.array(full, float)
    return dict(zip(names, full))


_ENVS = {}


def run_formula(case):
    key = json.dumps(case["ref"])
    if (case["id"], key) not in _ENVS:
        if len(_ENVS) > 300:
            _ENVS.clear()
        _ENVS[case["id"], key] = g.build(dict(id=case["id"], **({"ref": case["ref"]} if case["ref"] else {})))
    env = _ENVS[case["id"], key]
    y, rg = env.physical_system, env.reference_generator
    names = list(y.state_names)
    W, P = _weights(case["w"], names), _power(case["p"], names)
    kw = dict(reward_power=P, bias=case["bias"], gamma=case["gamma"], normed_reward_weights=case["normed"])
    if W is not None:
        kw["reward_weights"] = W
    if case["viol"] is not None:
        kw["violation_reward"] = case["viol"]
    keep = (None if W is None else np.array(list(W.values()) if isinstance(W, dict) else W, float).copy())
    rf = rfs.WeightedSumOfErrors(**kw)
    rf.set_modules(y, rg, ConstraintMonitor())
    w, p, b, rng, v = expect(W, names, rg.referenced_states, case["normed"], case["gamma"], P, case["bias"], case["viol"], y.state_space)
    length = y.state_space.high - y.state_space.low
    check(
        np.allclose(rf.reward_range, rng, rtol=1e-12, atol=1e-12),
        lambda: f"{case['id']}: reward range {rf.reward_range} instead of {rng}; {kw}",
    )
    if case["bias"] == "positive":
        check(abs(rf.reward_range[0]) < 1e-12, lambda: f"positive bias, but the reward range is {rf.reward_range}")
    # the violation reward: full violation
    z = np.zeros(len(names))
    got = rf.reward(z, z, 0, None, 1.0)
    check(abs(got - v) <= 1e-12 * (1 + abs(v)), lambda: f"{case['id']}: violation reward {got} instead of {v}; {kw}")
    if case["viol"] is None:
        worst = rng[0] / (1 - case["gamma"])
        check(got <= worst + 1e-9 * (1 + abs(worst)) and got <= 1e-12, lambda: f"default violation reward {got} is better than the worst sustained reward {worst}")
    nz = False
    lo, hi = y.state_space.low, y.state_space.high
    for us, ur, d in case["points"]:
        s = lo + (hi - lo) * np.array([us[i % len(us)] for i in range(len(names))])
        r = lo + (hi - lo) * np.array([ur[i % len(ur)] for i in range(len(names))])
        if case["only_ref"]:
            r = np.where(rg.referenced_states, r, 0.0)
        sc, rc = s.copy(), r.copy()
        e = formula(w, p, b, length, s, r)
        want = (1 - d) * e + d * v
        got = rf.reward(s, r, 3, None, d)
        check(
            abs(got - want) <= 1e-10 * (1 + abs(want)),
            lambda: f"{case['id']}: reward {got} instead of {want} for state {s}, reference {r}, degree {d}; {kw}",
        )
        check(np.array_equal(s, sc) and np.array_equal(r, rc), "the reward function changes the state or reference")
        got0 = rf.reward(s, r, 3, None, 0.0)
        check(rng[0] - 1e-9 <= got0 <= rng[1] + 1e-9, lambda: f"{case['id']}: reward {got0} outside of the announced range {rng}; {kw}")
        check(abs(rf.reward(s, r) - got0) == 0, "the default violation degree is not zero")
        nz = nz or e < b - 1e-9
        # a smaller error never gives a smaller reward
        mid = r + 0.5 * (s - r)
        if (p[w > 0] > 0).all():
            check(rf.reward(mid, r) >= got0 - 1e-12, lambda: f"halving all errors lowers the reward from {got0} to {rf.reward(mid, r)}")
    if keep is not None:
        now = np.array(list(W.values()) if isinstance(W, dict) else W, float)
        check(np.array_equal(keep, now), lambda: f"the given weights are changed from {keep} to {now}")
    return nz, [case["w"]["form"] if case["w"] else "default", case["p"]["form"], "normed" if case["normed"] else "plain", str(case["bias"] == "positive")]


U = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), g.f(0, 1))
weights = st.one_of(
    st.none(),
    st.fixed_dictionaries(
        dict(
            form=st.sampled_from(["dict", "list", "array"]),
            vals=st.lists(st.one_of(st.sampled_from([0.0, 1.0]), g.f(0, 5)), min_size=1, max_size=5),
            mask=st.integers(1, 2**25 - 1),
            zeros=st.booleans(),
            rev=st.booleans(),
        )
    ),
)
power = st.fixed_dictionaries(
    dict(
        form=st.sampled_from(["scalar", "list", "array", "dict"]),
        vals=st.lists(st.one_of(st.sampled_from([1, 2, 0.5, 1.0]), g.f(0.1, 4)), min_size=1, max_size=4),
    )
)
par = dict(
    w=weights, p=power, bias=st.one_of(st.just("positive"), st.just(0.0), g.f(-2, 3)), gamma=st.one_of(st.sampled_from([0.0, 0.9, 0.99]), g.f(0, 0.999)),
    normed=st.booleans(), viol=st.one_of(st.none(), st.none(), g.f(-20, 5), st.just(0.0)),
)  # fmt: skip
formula_cases = g.ids.flatmap(
    lambda i: st.fixed_dictionaries(
        dict(
            id=st.just(i),
            ref=st.one_of(st.none(), st.just(dict(kind="zero")), g.refs(g.split(i)[2]).map(lambda d: d if d["kind"] in ("const", "multiple") else None)),
            only_ref=st.booleans(),
            points=st.lists(st.tuples(st.lists(U, min_size=1, max_size=5), st.lists(U, min_size=1, max_size=5), U).map(list), min_size=1, max_size=8),
            **par,
        )
    )
)


# ---------------------------------------------------------------------------------------------------------------- env
def run_env(case):
    spec = dict(case["spec"])
    motor = g.split(spec["id"])[2]
    probe = g.build(spec)
    names = list(probe.physical_system.state_names)
    if len(set(names)) < len(names):
        return False, ["two summed currents"]  # the default sum of the shunt drive and another one share their name
    W, P = _weights(case["w"], names), _power(case["p"], names)
    kw = dict(reward_power=P, bias=case["bias"], gamma=case["gamma"], normed_reward_weights=case["normed"])
    if W is not None:
        kw["reward_weights"] = W
    if case["viol"] is not None:
        kw["violation_reward"] = case["viol"]
    lims = [c for c in case["lims"] if c in names]
    soft = case["soft"]
    si = names.index(soft["state"]) if soft and soft["state"] in names else None

    def softc(state):
        return float(np.clip((abs(state[si]) - soft["from"]) / soft["width"], 0.0, soft["max"]))

    cons = list(lims) + ([softc] if si is not None else [])
    if case["merge"] == "product":
        cons = ConstraintMonitor(limit_constraints=lims, additional_constraints=[softc] if si is not None else [], merge_violations="product")
    env = g.build(spec, reward_function=rfs.WeightedSumOfErrors(**kw), constraints=cons)
    y, rg = env.physical_system, env.reference_generator
    w, p, b, rng, v = expect(W, names, rg.referenced_states, case["normed"], case["gamma"], P, case["bias"], case["viol"], y.state_space)
    check(np.allclose(env.reward_range, rng, rtol=1e-12, atol=1e-12), lambda: f"{spec['id']}: reward range {env.reward_range} instead of {rng}")
    length = y.state_space.high - y.state_space.low
    pos = {s: i for i, s in enumerate(names)}
    (s, ann), _ = env.reset(seed=case["seed"])
    n = soft_seen = 0
    for a in g.expand(env.action_space, case["plan"]):
        ref = np.zeros(len(names))
        for k, m in enumerate(rg.reference_names):
            ref[pos[m]] = np.ravel(ann)[k]
        (s, ann), rew, term, _, _ = env.step(a)
        if not np.isfinite(s).all() or np.abs(s).max() > 1e6:
            break
        ds = [1.0 if any(abs(s[pos[c]]) > 1 for c in lims) else 0.0] if lims else []
        if si is not None:
            ds.append(softc(s))
        if not ds:
            d = 0.0
        elif case["merge"] == "product":
            d = 1 - float(np.prod([1 - x for x in ds]))
        else:
            d = max(ds)
        want = (1 - d) * formula(w, p, b, length, s, ref) + d * v
        check(
            abs(rew - want) <= 1e-9 * (1 + abs(want)),
            lambda: f"{spec['id']}: reward {rew} instead of {want} in step {n + 1}; degree {d}, state {s}, reference {ref}, {kw}",
        )
        if d == 0.0 and (s >= y.state_space.low).all() and (s <= y.state_space.high).all():
            check(rng[0] - 1e-9 <= rew <= rng[1] + 1e-9, lambda: f"{spec['id']}: reward {rew} outside of {rng}")
        soft_seen += 0 < d < 1
        n += 1
        if term:
            (s, ann), _ = env.reset()
    return n >= 8, [motor, "soft" if soft_seen else "hard", case["merge"]]


env_cases = st.fixed_dictionaries(
    dict(
        spec=g.specs(features=("ref", "load", "tau", "solver", "wrappers"), p_feature=0.5).map(lambda s: {k: v for k, v in s.items() if k != "constraints"}),
        seed=st.integers(0, 10**5),
        plan=g.segments(10, 12),
        lims=st.lists(st.sampled_from(["omega", "torque", "i", "i_a", "i_e", "i_sd", "i_sq", "u"]), max_size=3, unique=True),
        soft=st.one_of(
            st.none(),
            st.fixed_dictionaries(
                {
                    "state": st.sampled_from(["omega", "torque", "i", "i_a", "i_e", "i_sd", "i_sq"]),
                    "from": g.f(0, 0.8),
                    "width": g.f(0.05, 1),
                    "max": st.sampled_from([1.0, 0.9]),
                }
            ),
        ),
        merge=st.sampled_from(["max", "product"]),
        **par,
    )
)

SUBS = [
    Sub("formula", formula_cases, run_formula, 3000, shards=4),
    Sub("env", env_cases, run_env, 800, shards=4),
]
