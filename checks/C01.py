"""C01: every environment honours the declared reset/step interface."""
import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import physical_systems as ps
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C01"
RULE = (
    "A case is an environment specification (id, tau, solver, converter dead time, supply, motor parameters, "
    "initializer, load, reference, reward, constraints, wrappers, state filter) plus a history of steps with chosen "
    "actions, resets and component replacements. Non-trivial: at least 5 steps were executed, or an episode "
    "terminated, or a rejected step was observed."
)
FEATURES = (
    "tau", "solver", "lock", "supply", "mp", "minit", "load", "ref", "reward", "constraints", "wrappers", "filter",
)  # fmt: skip


def _ops():
    step = st.tuples(st.just("step"), g.UVEC, st.integers(1, 15)).map(list)
    reset = st.tuples(st.just("reset"), st.one_of(st.none(), st.integers(0, 99))).map(list)
    other = st.sampled_from([["set_reward"], ["set_ref"]])
    return st.lists(st.one_of(step, step, step, reset, other), min_size=1, max_size=10)


def _rejects(env, a):
    try:
        env.step(a)
    except Exception:
        return True
    return False


def _check_obs(env, obs, what, monitored, terminated=False):
    check(isinstance(obs, tuple) and len(obs) == 2, lambda: f"{what}: observation is {type(obs)}")
    s, r = obs
    space_s, space_r = env.observation_space.spaces
    s, r = np.asarray(s), np.asarray(r)
    check(s.shape == space_s.shape, lambda: f"{what}: state shape {s.shape} != {space_s.shape}")
    check(r.shape == space_r.shape, lambda: f"{what}: reference shape {r.shape} != {space_r.shape}")
    check(len(env.state_names) == s.shape[0], lambda: f"{what}: {len(env.state_names)} names for {s.shape[0]} states")
    check(np.all(np.isfinite(s)), lambda: f"{what}: non-finite state {s.tolist()}")
    check(np.all(np.isfinite(r)), lambda: f"{what}: non-finite reference {r.tolist()}")
    check(
        np.all(r >= space_r.low - 1e-9) and np.all(r <= space_r.high + 1e-9),
        lambda: f"{what}: reference {r.tolist()} outside [{space_r.low.tolist()}, {space_r.high.tolist()}]",
    )
    if not terminated:
        for n, v in zip(env.state_names, s):
            if n in monitored:
                check(abs(v) <= 1 + 1e-12, lambda: f"{what}: monitored state {n}={v} outside its limit in a running episode")


def _monitored(spec, env):
    if spec.get("constraints") is not None:
        return set(spec["constraints"])
    return set()


def run_contract(case):
    spec = case["spec"]
    env = g.build(spec)
    monitored = _monitored(spec, env)
    labels = [g.split(spec["id"])[2]]
    names = env.state_names
    full = list(env.physical_system.state_names)
    if spec.get("filter") is not None:
        check(list(names) == list(spec["filter"]), lambda: f"state_names {names} != state_filter {spec['filter']}")
    else:
        check(list(names) == full, lambda: f"state_names {names} != {full}")
    lim, nom = np.asarray(env.physical_system.limits), np.asarray(env.physical_system.nominal_state)
    idx = [full.index(n) for n in names]
    check(np.array_equal(env.limits, lim[idx]), "limits are not in the order of the observation")
    check(np.array_equal(env.nominal_state, nom[idx]), "nominal values are not in the order of the observation")
    sp = env.observation_space.spaces[0]
    check(sp.shape == (len(names),), "observation space has not one entry per selected state")
    psp = env.physical_system.state_space
    check(
        np.array_equal(sp.low, psp.low[idx]) and np.array_equal(sp.high, psp.high[idx]),
        "the bounds of the observation space are not those of the selected states",
    )
    a0 = g.action(env.action_space, [500])
    check(_rejects(env, a0), "a fresh environment accepts a step before the first reset")
    running, k, steps, terms, rejected = False, 0, 0, 0, 1
    for op in case["ops"]:
        if op[0] == "reset":
            obs, info = env.reset(seed=op[1])
            check(isinstance(info, dict), "reset: info is no dict")
            _check_obs(env, obs, "reset", set())
            check(np.asarray(env.physical_system.k) == 0, lambda: f"time index {env.physical_system.k} after reset")
            running, k = True, 0
        elif op[0] == "set_reward":
            env.reward_function = env.reward_function
            check(_rejects(env, a0), "a step is accepted after the reward function was replaced")
            running, rejected = False, rejected + 1
        elif op[0] == "set_ref":
            env.reference_generator = env.reference_generator
            check(_rejects(env, a0), "a step is accepted after the reference generator was replaced")
            running, rejected = False, rejected + 1
        else:
            a = g.action(env.action_space, op[1])
            check(env.action_space.contains(a), lambda: f"harness: action {a} not in {env.action_space}")
            for _ in range(op[2]):
                if not running:
                    check(_rejects(env, a), "a step is accepted although a reset is required")
                    rejected += 1
                    break
                ret = env.step(a)
                check(isinstance(ret, tuple) and len(ret) == 5, lambda: f"step returned {len(ret)} values")
                obs, rew, term, trunc, info = ret
                k, steps = k + 1, steps + 1
                check(np.ndim(rew) == 0 and np.isfinite(rew), lambda: f"reward {rew!r} is no finite number")
                check(term in (True, False) and np.ndim(term) == 0, lambda: f"terminated is {term!r}")
                check(trunc in (True, False), lambda: f"truncated is {trunc!r}")
                check(isinstance(info, dict), "step: info is no dict")
                _check_obs(env, obs, f"step {k}", monitored, bool(term))
                check(
                    np.asarray(env.physical_system.k) == k, lambda: f"time index {env.physical_system.k} after {k} steps"
                )
                if term:
                    running, terms = False, terms + 1
                    check(_rejects(env, a), "a terminated episode accepts a further step")
    env.close()
    if terms:
        labels.append("terminated")
    return steps >= 5 or terms > 0, labels


def run_filter(case):
    spec = dict(case["spec"])
    flt = spec.pop("filter")
    env0 = g.build(spec)
    full = list(env0.physical_system.state_names)
    flt = [n for n in flt if n in full] or ["omega"]
    env1 = g.build(dict(spec, filter=flt))
    o0, o1 = g.rollout(env0, case["plan"], seed=case["seed"]), g.rollout(env1, case["plan"], seed=case["seed"])
    idx = [full.index(n) for n in flt]
    exp = [(e[0], e[1][idx]) + tuple(e[2:]) for e in o0]
    check(g.same(exp, o1), lambda: "the state filter changes the behaviour: " + g.first_diff(exp, o1))
    return len(o0) > 4, [g.split(spec["id"])[2]]


def _in_space(u, obs, what, monitored):
    s, r = np.asarray(obs[0]), np.asarray(obs[1])
    sp, rp = u.observation_space.spaces
    check(rp.contains(r), lambda: f"{what}: reference {r.tolist()} ({r.dtype}) not in {rp}")
    check(s.dtype == sp.dtype and s.shape == sp.shape and np.all(np.isfinite(s)), lambda: f"{what}: state {s} vs {sp}")
    for n in monitored:
        i = u.state_names.index(n)
        check(
            sp.low[i] - 1e-9 <= s[i] <= sp.high[i] + 1e-9,
            lambda: f"{what}: monitored state {n}={s[i]} outside [{sp.low[i]}, {sp.high[i]}] in a running episode",
        )


def run_wrapped(case):
    """The object returned by gem.make (with gymnasium's own checkers) for the default configuration."""
    import gym_electric_motor as gem

    env = gem.make(case["id"], visualization=g.NoVisu())
    obs, info = env.reset(seed=case["seed"])
    u = env.unwrapped
    motor = g.split(case["id"])[2]
    monitored = g.CURRENTS[motor]
    _in_space(u, obs, "reset", monitored)
    n = 0
    for a in g.expand(env.action_space, case["plan"]):
        obs, rew, term, trunc, info = env.step(a)
        n += 1
        check(np.isfinite(rew), "reward not finite")
        _in_space(u, obs, f"step {n}", () if term else monitored)
        if term:
            obs, info = env.reset()
    env.close()
    return n >= 5, [case["id"]]


def run_quadrants(case):
    """The declared ranges with every kind of converter."""
    env_id, conv = case["id"], case["conv"]
    act, task, motor = g.split(env_id)
    parts = tuple(CONVERTERS[act][c]() for c in conv)
    multi = ps.FiniteMultiConverter if act == "Finite" else ps.ContMultiConverter
    init = {}
    if case["init"] is not None and "i_e" in g.CURRENTS[motor]:
        i_e = case["init"] * g.MOTOR_CLS[motor]().nominal_values["i_e"]
        init = dict(motor=g.MOTOR_CLS[motor](motor_initializer=dict(states=dict(i_a=0.0, i_e=i_e))))
    env = g.build(
        dict(id=env_id, constraints=case["constraints"], tau=case["tau"]),
        converter=multi(subconverters=parts) if len(parts) > 1 else parts[0],
        load=g.load(dict(case["load"], tau=case["tau"])),
        **init,
    )
    names, sp = env.state_names, env.observation_space.spaces[0]
    for n, lo, hi in zip(names, sp.low, sp.high):
        check(lo <= 0 < hi, lambda: f"zero is not in the declared range [{lo}, {hi}] of {n}")
    lim = env.limits
    # (two environments have a voltage limit below their supply voltage)
    u_max = env.physical_system.supply.u_nominal
    always = [n for n in names if n.startswith("u") and lim[names.index(n)] >= u_max]
    # (the current of a one quadrant converter is held at zero by its diode, up to one step of the solver)
    monitored = [] if 1 in conv else case["constraints"]
    if case["load"]["kind"] in ("ou", "ext"):  # these choose the speed themselves, also against the drive's range
        monitored = [n for n in monitored if n != "omega"]
    obs, _ = env.reset(seed=1)
    n, signs = 0, set()
    for a in g.expand(env.action_space, case["plan"]):
        obs, _, term, _, _ = env.step(a)
        n += 1
        for name in always if term else always + monitored:
            k = names.index(name)
            check(
                sp.low[k] - 1e-9 <= obs[0][k] <= sp.high[k] + 1e-9,
                lambda: f"step {n}: {name}={obs[0][k]} outside of its declared range [{sp.low[k]}, {sp.high[k]}]",
            )
        if term:
            env.reset()
    return n >= 5, [f"{motor}-{'-'.join(map(str, conv))}"]


CONVERTERS = dict(
    Cont={1: ps.ContOneQuadrantConverter, 2: ps.ContTwoQuadrantConverter, 4: ps.ContFourQuadrantConverter},
    Finite={1: ps.FiniteOneQuadrantConverter, 2: ps.FiniteTwoQuadrantConverter, 4: ps.FiniteFourQuadrantConverter},
)


@st.composite
def _quadrant_cases(draw):
    env_id = draw(st.sampled_from([i for i in g.IDS if g.split(i)[2] in g.DC]))
    motor = g.split(env_id)[2]
    names = [n for n in g.SYSTEM_STATES[motor] if n != "u_sup"]
    if draw(st.booleans()):  # braking: magnetised at speed, then less voltage than the back-emf
        y = g.build(dict(id=env_id)).physical_system
        omega = float(min(y.limits[y.state_positions["omega"]], y.nominal_state[y.state_positions["omega"]])) * draw(g.f(0.2, 0.98))
        swing = st.tuples(st.lists(st.sampled_from([0, 0, 250, 500, 1000, 1000]), min_size=1, max_size=2), st.integers(5, 40)).map(list)
        return dict(
            id=env_id, conv=draw(st.lists(st.sampled_from([2, 2, 4]), min_size=1 + (motor == "ExtExDc"), max_size=1 + (motor == "ExtExDc"))),
            tau=draw(st.sampled_from([1e-5, 1e-4, 1e-3])), init=draw(g.f(0.05, 0.8)),
            constraints=draw(st.lists(st.sampled_from([n for n in names if n != "omega"]), min_size=1, max_size=5, unique=True)),
            load=dict(kind="const", omega=omega), plan=draw(st.lists(swing, min_size=2, max_size=6)),
        )  # fmt: skip
    conv = draw(st.lists(st.sampled_from([1, 2, 4]), min_size=1 + (motor == "ExtExDc"), max_size=1 + (motor == "ExtExDc")))
    return dict(
        tau=1e-4, init=None,
        id=env_id, conv=conv, constraints=draw(st.lists(st.sampled_from(names), max_size=5, unique=True)),
        load=draw(g.loads("PermExDc" if 4 in conv and motor in ("PermExDc", "ExtExDc") else "SeriesDc")), plan=draw(g.segments(6, 15)),
    )  # fmt: skip


_specs = g.specs(features=FEATURES)
SUBS = [
    Sub("contract", st.fixed_dictionaries(dict(spec=_specs, ops=_ops().map(lambda o: [["reset", 1]] + o))), run_contract, 1200, 40000, shards=8),
    Sub(
        "filter",
        st.fixed_dictionaries(dict(spec=g.specs(features=FEATURES[:-1]), plan=g.segments(6, 8), seed=st.integers(0, 99))).flatmap(
            lambda c: st.lists(
                st.sampled_from(g.SYSTEM_STATES[g.split(c["spec"]["id"])[2]]), min_size=1, max_size=5, unique=True
            ).map(lambda f: dict(c, spec=dict(c["spec"], filter=f)))
        ),
        run_filter, 200, 8000, shards=4,
    ),
    Sub("quadrants", _quadrant_cases(), run_quadrants, 500, 15000, shards=4),
    Sub("default_ids", st.fixed_dictionaries(dict(id=g.ids, plan=g.segments(8, 10), seed=st.integers(0, 99))), run_wrapped, 250, 5000, shards=4),
]  # fmt: skip
