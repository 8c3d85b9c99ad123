"""C03: instances are independent and never alter user arguments or defaults."""
import json

import numpy as np
from hypothesis import strategies as st

import gym_electric_motor as gem
from gym_electric_motor import constraints as cons
from gym_electric_motor import physical_systems as ps
from gym_electric_motor import reference_generators as rgs
from gym_electric_motor import reward_functions as rfs
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C03"
RULE = (
    "A case is two or three environment specifications (same or different classes, user arguments) and an interleaving "
    "of construct/reset/step/close operations, or one set of user argument objects. Non-trivial: at least two "
    "instances exist at the same time and both are stepped, or at least one mutable argument was passed and 3 steps "
    "were executed."
)
FEATURES = (
    "tau", "solver", "lock", "supply", "mp", "minit", "load", "ref", "reward", "constraints", "wrappers", "filter", "ac",
)  # fmt: skip


# ------------------------------------------------------------------------------------------ interleaved instances
def _solo(spec, script, seed):
    env = g.build(spec)
    return [_op(env, o, seed) for o in script] + [_meta(env)]


def _meta(env):
    p = env.physical_system
    sp = env.observation_space
    mp = p.electrical_motor.motor_parameter
    return (
        "meta",
        np.array(env.limits), np.array(env.nominal_state), np.array(p.limits), np.array(p.nominal_state),
        np.concatenate([np.r_[s.low, s.high] for s in sp.spaces]),
        np.array(env.reward_range, float),
        np.array([mp[k] for k in sorted(mp)], float),
    )  # fmt: skip


def _op(env, o, seed):
    if o[0] == "reset":
        env._verif_running = True
        (s, r), _ = env.reset(seed=seed + o[1])
        return ("reset", s.copy(), np.copy(r))
    if not getattr(env, "_verif_running", False):
        env._verif_running = True
        (s, r), _ = env.reset(seed=seed)
        return ("reset", s.copy(), np.copy(r))
    (s, r), rew, term, _, _ = env.step(g.action(env.action_space, o[1]))
    if term:
        env._verif_running = False
    return ("step", s.copy(), np.copy(r), float(rew), bool(term))


def run_interleave(case):
    specs, scripts, seed = case["specs"], case["scripts"], case["seed"]
    n = len(specs)
    solo = [_solo(specs[i], scripts[i], seed) for i in range(n)]
    envs, out, pos = [None] * n, [[] for _ in range(n)], [0] * n
    extra = []
    for k in case["order"]:
        i = k % n
        if envs[i] is None:
            envs[i] = g.build(specs[i])
            continue
        if k >= 10 and n > 1:  # somebody else creates, uses and closes one more instance of the same specification
            e = g.build(specs[i])
            e.reset(seed=seed)
            e.step(g.action(e.action_space, [k * 37 % 1000]))
            e.close()
            extra.append(e)
        if pos[i] < len(scripts[i]):
            out[i].append(_op(envs[i], scripts[i][pos[i]], seed))
            pos[i] += 1
    for i in range(n):
        if envs[i] is None:
            envs[i] = g.build(specs[i])
        while pos[i] < len(scripts[i]):
            out[i].append(_op(envs[i], scripts[i][pos[i]], seed))
            pos[i] += 1
        out[i].append(_meta(envs[i]))
    for i in range(n):
        check(
            g.same(solo[i], out[i]),
            lambda: f"instance {i} ({specs[i]['id']}) behaves differently next to other instances: "
            + g.first_diff(solo[i], out[i]),
        )
    for i in range(n):
        again = _solo(specs[i], scripts[i], seed)
        check(
            g.same(solo[i], again),
            lambda: f"{specs[i]['id']} behaves differently after other instances were used: "
            + g.first_diff(solo[i], again),
        )
    _check_defaults(case["probe"])
    both = sum(any(x[0] == "step" for x in o) for o in out)
    return both >= 2, sorted({g.split(s["id"])[2] for s in specs}) + (["same-class"] if len({s["id"] for s in specs}) < n else [])


# ------------------------------------------------------------------------------------------ documented defaults
def _default_run(env_id):
    env = g.build(dict(id=env_id))
    return g.rollout(env, [[[700, 300, 900], 3], [[0], 2]], seed=5) + [_meta(env)]


_DEFAULTS = {}


def prepare():
    """What every default environment does in a process that has not used the package for anything else."""
    if not _DEFAULTS:
        import multiprocessing as mp

        ctx = mp.get_context("fork")
        with ctx.Pool(8, maxtasksperchild=1) as pool:
            for i, r in zip(g.IDS, pool.map(_default_run, g.IDS, chunksize=1)):
                _DEFAULTS[i] = r


def _check_defaults(i):
    env_id = g.IDS[i]
    now = _default_run(env_id)
    check(
        g.same(_DEFAULTS[env_id], now),
        lambda: f"the default environment {env_id} has changed: " + g.first_diff(_DEFAULTS[env_id], now),
    )


# ------------------------------------------------------------------------------------------ user arguments
def _freeze(x):
    if isinstance(x, dict):
        return ("dict", [(k, _freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [_freeze(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.tolist())
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return x
    return ("object", id(x))


def _args(case):
    """Everything a user can hand over as dictionary, list or array."""
    env_id = case["id"]
    act, task, motor = g.split(env_id)
    tau = 1e-4 if act == "Cont" else 1e-5
    names = g.SYSTEM_STATES[motor]
    use = case["use"]
    kw, extra = {}, []
    if use["motor"]:
        m = dict(motor_parameter=g.mp_from(motor, case["mp"]))
        if use["limits"]:
            m["limit_values"] = dict(omega=500.0)
            m["nominal_values"] = dict(omega=350.0)
        if use["minit"]:
            m["motor_initializer"] = dict(states={n: 0.0 for n in _mstates(motor)}, random_init="uniform", interval=None, random_params=(None, None))
            if motor in g.DC:
                m["motor_initializer"]["interval"] = [[-1.0, 1.0] for _ in m["motor_initializer"]["states"]]
        if use["as_instance"]:
            extra.append(m)
            kw["motor"] = g.MOTOR_CLS[motor](**m)
        else:
            kw["motor"] = m
    if use["supply"]:
        d = dict(R=0.01, C=4e-3)
        extra.append(d)
        kw["supply"] = ps.RCVoltageSupply(u_nominal=300.0, supply_parameter=d)
    elif use["ac"] and motor in g.DC:
        d = dict(frequency=50.0, **(dict(phase=0.3) if case["fixed"] else {}))
        extra.append(d)
        kw["supply"] = ps.AC1PhaseSupply(u_nominal=60.0, supply_parameter=d)
    elif use["supply_dict"]:
        kw["supply"] = dict(u_nominal=111.0)
    if use["converter"]:
        kw["converter"] = dict(interlocking_time=0.1 * tau)
    if use["load"]:
        lp, li = dict(a=0.01, b=0.02, c=1e-4, j_load=1e-3), dict(states=dict(omega=10.0), interval=None, random_init=case["linit"], random_params=(20.0, 3.0))
        extra += [lp, li]
        kw["load"] = ps.PolynomialStaticLoad(load_parameter=lp, load_initializer=li)
    if use["ref"]:
        state = g.CURRENTS[motor][0]
        rk = dict(reference_state=state, sigma_range=[1e-3, 1e-1], episode_lengths=[3, 10], limit_margin=None)
        extra.append(rk)
        subs = [rgs.WienerProcessReferenceGenerator(**rk), rgs.SinusoidalReferenceGenerator(reference_state=state)]
        extra.append(subs)
        p = [0.5, 0.5]
        extra.append(p)
        sel = [2, 8]
        extra.append(sel)
        kw["reference_generator"] = rgs.SwitchedReferenceGenerator(subs, p=p, super_episode_length=sel)
    if use["reward"]:
        form = case["wform"]
        w = {"omega": 0.3, "torque": 0.9}
        if form == "array" and not use["wrappers"]:
            w = np.array([0.3, 0.9] + [0.0] * (len(names) - 2) + ([0.0] if motor == "ShuntDc" else []))
        elif form == "list" and not use["wrappers"]:
            w = [0.3, 0.9] + [0.0] * (len(names) - 2) + ([0.0] if motor == "ShuntDc" else [])
        rp = np.full(len(names) + (motor == "ShuntDc"), 2.0) if form == "array" and not use["wrappers"] else {"omega": 2.0}
        extra += [w, rp]
        kw["reward_function"] = rfs.WeightedSumOfErrors(reward_weights=w, reward_power=rp, normed_reward_weights=case["normed"], bias=case["bias"])
    if use["constraints"]:
        c = list(g.CURRENTS[motor])
        extra.append(c)
        sq = list(g.CURRENTS[motor][:2])
        extra.append(sq)
        kw["constraints"] = [cons.LimitConstraint(c), cons.SquaredConstraint(sq), "omega"]
    if use["wrappers"]:
        st_names = [names[0], g.CURRENTS[motor][0]]
        rk = dict(loc=0.0, scale=0.02)
        extra += [st_names, rk]
        kw["physical_system_wrappers"] = [
            gem.physical_system_wrappers.StateNoiseProcessor(states=st_names, random_dist="normal", random_kwargs=rk),
            gem.physical_system_wrappers.DeadTimeProcessor(steps=2),
        ]
    if use["filter"]:
        kw["state_filter"] = list(names[:3])
    if use["callbacks"]:
        kw["callbacks"] = [gem.core.Callback()]
    kw["visualization"] = g.NoVisu()
    return kw, extra


def _mstates(motor):
    if motor in g.DC:
        return g.CURRENTS[motor]
    if motor == "EESM":
        return ["i_sd", "i_sq", "i_e", "epsilon"]
    if motor in g.SYNC:
        return ["i_sd", "i_sq", "epsilon"]
    return ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"]


def run_args(case):
    kw, extra = _args(case)
    before_kw = {k: _freeze(v) for k, v in kw.items()}
    before = [_freeze(x) for x in extra]

    def verify(when):
        for k, v in kw.items():
            check(_freeze(v) == before_kw[k], lambda: f"argument {k} was altered by {when}: {before_kw[k]} -> {_freeze(v)}")
        for b, x in zip(before, extra):
            check(_freeze(x) == b, lambda: f"user object was altered by {when}: {b} -> {_freeze(x)}")

    env = gem.make(case["id"], **kw).unwrapped
    verify("the construction")
    o1 = g.rollout(env, case["plan"], seed=case["seed"])
    verify("reset and step")
    env.close()
    verify("close")
    # the same argument objects build the same environment again
    if not any(not isinstance(v, (dict,)) for k, v in kw.items() if k in ("motor", "load", "supply", "reference_generator", "reward_function", "physical_system_wrappers")):
        env2 = gem.make(case["id"], **kw).unwrapped
        o2 = g.rollout(env2, case["plan"], seed=case["seed"])
        check(g.same(o1, o2), lambda: "the same arguments build a different environment the second time: " + g.first_diff(o1, o2))
    # and equal, newly created arguments do as well
    kw3, _ = _args(case)
    env3 = gem.make(case["id"], **kw3).unwrapped
    o3 = g.rollout(env3, case["plan"], seed=case["seed"])
    check(g.same(o1, o3), lambda: "equal arguments build a different environment: " + g.first_diff(o1, o3))
    _check_defaults(case["probe"])
    return len(o1) > 3 and any(case["use"].values()), [g.split(case["id"])[2]] + [k for k, v in case["use"].items() if v]


# ------------------------------------------------------------------------------------------ returned arrays
def run_returned(case):
    env = g.build(case["spec"])
    kept, copies = [], []

    def keep(obs):
        for x in obs:
            kept.append(x)
            copies.append(np.copy(x))

    obs, _ = env.reset(seed=case["seed"])
    keep(obs)
    n = 0
    for a in g.expand(env.action_space, case["plan"]):
        a0 = np.copy(a)
        obs, rew, term, _, _ = env.step(a)
        check(np.array_equal(a0, a), lambda: f"step modified the action {a0} -> {a}")
        keep(obs)
        n += 1
        if term:
            obs, _ = env.reset()
            keep(obs)
    for i, (x, y) in enumerate(zip(kept, copies)):
        check(
            np.array_equal(x, y, equal_nan=True),
            lambda: f"{'reference' if i % 2 else 'state'} returned by call {i // 2} was modified later: {y.tolist()} -> {np.asarray(x).tolist()}",
        )
    # a user who writes into returned arrays or uses one action array for all steps does not influence the simulation
    outs = []
    for what in ("", case["scribble"]):
        e = g.build(case["spec"])
        out, buffer = [], None
        (s, r), _ = e.reset(seed=case["seed"])
        for a in g.expand(e.action_space, case["plan"]):
            if isinstance(a, np.ndarray):
                if what == "action" and buffer is not None:
                    buffer[...] = a
                else:
                    buffer = np.array(a)
                a = buffer
            if what == "observation":
                s[:] = 77.0
                if isinstance(r, np.ndarray) and r.size:
                    r[:] = 55.0
            (s, r), rew, term, _, _ = e.step(a)
            out.append(("step", s.copy(), np.copy(r), float(rew), bool(term)))
            if what == "action" and buffer is not None:
                buffer[...] = 0
            if term:
                (s, r), _ = e.reset()
                out.append(("reset", s.copy(), np.copy(r)))
        outs.append(out)
    check(g.same(*outs), lambda: f"writing into the {case['scribble']} array changes the simulation: " + g.first_diff(*outs))
    return n >= 3, [g.split(case["spec"]["id"])[2]]


@st.composite
def _inter(draw):
    n = draw(st.integers(2, 3))
    first = draw(g.specs(features=FEATURES))
    specs = [first]
    for _ in range(n - 1):
        how = draw(st.integers(0, 3))
        if how == 0:
            specs.append(json.loads(json.dumps(first)))
        elif how == 1:
            specs.append(draw(g.specs(ids_=[first["id"]], features=FEATURES, p_feature=0.6)))
        elif how == 2:
            m = g.split(first["id"])[2]
            specs.append(draw(g.specs(ids_=[i for i in g.IDS if g.split(i)[2] == m], features=FEATURES)))
        else:
            specs.append(draw(g.specs(features=FEATURES)))
    op = st.one_of(
        st.tuples(st.just("step"), g.UVEC).map(list), st.tuples(st.just("step"), g.UVEC).map(list),
        st.tuples(st.just("step"), g.UVEC).map(list), st.tuples(st.just("reset"), st.integers(0, 3)).map(list),
    )  # fmt: skip
    scripts = [[["reset", 0]] + draw(st.lists(op, min_size=2, max_size=12)) for _ in range(n)]
    order = draw(st.lists(st.integers(0, 11), min_size=n, max_size=30))
    return dict(specs=specs, scripts=scripts, order=order, seed=draw(st.integers(0, 1000)), probe=draw(st.integers(0, 53)))


_B = st.booleans()
_use = st.fixed_dictionaries(
    {k: _B for k in ("motor", "limits", "minit", "as_instance", "supply", "ac", "supply_dict", "converter", "load", "ref", "reward", "constraints", "wrappers", "filter", "callbacks")}
)
_args_case = g.ids.flatmap(
    lambda i: st.fixed_dictionaries(
        dict(
            id=st.just(i), use=_use, mp=g.mp_scale(g.split(i)[2]), plan=g.segments(4, 6), seed=st.integers(0, 1000),
            wform=st.sampled_from(["dict", "list", "array"]), normed=_B, bias=st.sampled_from(["positive", 0.0, 0.3]),
            linit=st.sampled_from([None, "uniform", "gaussian"]), fixed=_B, probe=st.integers(0, 53),
        )
    )
)  # fmt: skip
SUBS = [
    Sub("interleave", _inter(), run_interleave, 1200, 40000, shards=8),
    Sub("arguments", _args_case, run_args, 900, 30000, shards=8),
    Sub(
        "returned",
        st.fixed_dictionaries(dict(spec=g.specs(features=FEATURES), plan=g.segments(6, 8), seed=st.integers(0, 1000), scribble=st.sampled_from(["observation", "action"]))),
        run_returned, 600, 20000, shards=4,
    ),
]  # fmt: skip
