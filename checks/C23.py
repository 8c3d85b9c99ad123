"""C23: equivalent configurations build equivalent environments; given values are used; unknown names are rejected."""
import copy
import importlib

import gymnasium
import numpy as np
from hypothesis import strategies as st

import gym_electric_motor as gem
from gym_electric_motor import physical_system_wrappers as psw
from gym_electric_motor import physical_systems as ps
from gym_electric_motor import reference_generators as rgs
from gym_electric_motor import reward_functions as rfs
from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
from gym_electric_motor.core import ConstraintMonitor
from gym_electric_motor.physical_systems import solvers as slv
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C23"
RULE = (
    "forms: an environment identifier, values for a random subset of its arguments, and two independently drawn ways "
    "of writing the same configuration (instance or dictionary per component, entry order, defaults written out or "
    "left out, tuple or list, by identifier or by class). Non-trivial: the two ways of writing differ in at least two "
    "arguments and at least 3 steps were compared. used: one argument value that differs from the default; "
    "non-trivial: the argument has an influence by construction. reject: an unknown name or unsupported type at one "
    "place of an otherwise valid configuration; always non-trivial."
)


# ------------------------------------------------------------------------------------------------ documented defaults
DOC_MP = {k: dict(v) for k, v in g.DEFAULT_MP.items()}
DOC_MP["EESM"]["l_m"] = 1.589e-3  # the other checks use a smaller value (see DESIGN.md, EESM)


def u_nominal(env_id):
    act, task, motor = g.split(env_id)
    if motor in g.DC:
        return 420.0 if env_id in ("Finite-TC-SeriesDc-v0", "Finite-CC-SeriesDc-v0") else 60.0
    return 300.0 if env_id in ("Cont-CC-PMSM-v0", "Cont-CC-EESM-v0") else 420.0


def default_tau(env_id):
    return 1e-4 if g.split(env_id)[0] == "Cont" else 1e-5


def ref_states(env_id):
    act, task, motor = g.split(env_id)
    if task != "CC":
        return ["omega" if task == "SC" else "torque"]
    if motor == "ShuntDc":
        return ["i_a"]
    return g.CURRENTS[motor]


def default_weights(env_id):
    n = ref_states(env_id)
    return {s: 1.0 / len(n) for s in n}


def default_constraints(env_id):
    motor = g.split(env_id)[2]
    if motor in g.DC:
        return tuple(g.CURRENTS[motor])
    c = (SquaredConstraint(("i_sq", "i_sd")),)
    return c + (LimitConstraint(("i_e",)),) if motor == "EESM" else c


def subconverters(env_id):
    act, task, motor = g.split(env_id)
    fin = act == "Finite"
    q4 = ps.FiniteFourQuadrantConverter if fin else ps.ContFourQuadrantConverter
    b6 = ps.FiniteB6BridgeConverter if fin else ps.ContB6BridgeConverter
    return {"ExtExDc": [q4, q4], "EESM": [b6, q4], "DFIM": [b6, b6], "PMSM": [b6], "SynRM": [b6], "SCIM": [b6]}.get(
        motor, [q4]
    )


def converter_cls(env_id):
    subs = subconverters(env_id)
    if len(subs) == 1:
        return subs[0]
    return ps.FiniteMultiConverter if g.split(env_id)[0] == "Finite" else ps.ContMultiConverter


# --------------------------------------------------------------------------------------------------- component values
def _values(env_id):
    """Strategy of the values of the configuration, {argument: value}"""
    act, task, motor = g.split(env_id)
    names = g.SYSTEM_STATES[motor]
    refs = ref_states(env_id)
    opt = dict(
        supply=st.fixed_dictionaries({}, optional=dict(u_nominal=st.sampled_from([24.0, 60.0, 300.0, 420.0]))),
        converter=st.fixed_dictionaries(dict(lock=st.sampled_from([0.0, 0.02, 0.1, 0.4]))),
        motor=st.fixed_dictionaries(
            {},
            optional=dict(
                motor_parameter=g.mp_scale(motor).filter(bool),
                nominal_values=st.fixed_dictionaries({}, optional=dict(omega=g.f(250, 400), torque=g.f(5, 60))),
                limit_values=st.fixed_dictionaries({}, optional=dict(omega=g.f(400, 800), torque=g.f(80, 300))),
                motor_initializer=g.minits(motor) if g.minits(motor) is not None else st.nothing(),
            ),
        ),
        load=(
            st.fixed_dictionaries(dict(omega_fixed=g.f(0, 120)))
            if task != "SC"
            else st.fixed_dictionaries(
                {},
                optional=dict(
                    load_parameter=st.fixed_dictionaries(
                        {}, optional=dict(a=g.f(0, 1), b=g.f(0, 0.1), c=g.f(0, 0.01), j_load=g.log(1e-4, 1e-1))
                    ),
                    load_initializer=st.sampled_from(
                        [
                            dict(states=dict(omega=20.0)),
                            dict(states=dict(omega=0.0), random_init="uniform", interval=[[10.0, 40.0]]),
                            dict(states=dict(omega=0.0), random_init="gaussian", random_params=[30.0, 5.0]),
                        ]
                    ),
                ),
            )
        ),
        ode_solver=st.fixed_dictionaries(
            {}, optional=dict(integrator=st.sampled_from(["dopri5", "dop853", "lsoda"]), rtol=st.sampled_from([1e-4, 1e-7]))
        ),
        reference=st.fixed_dictionaries(
            dict(
                sigma_range=st.sampled_from([[1e-3, 1e-1], [1e-2, 1.0]]),
                limit_margin=st.sampled_from([[0.0, 0.5], [0.1, 0.9]]),
                states=st.sampled_from(refs).map(lambda s: [s]) if len(refs) == 1 else st.permutations(refs),
            ),
            optional=dict(
                episode_lengths=st.sampled_from([[1, 5], [3, 20], [10, 10]]),
                initial_range=st.sampled_from([[0.1, 0.2], [0.0, 0.4]]),
            ),
        ),
        reward=g.rewards(motor),
        constraints=st.lists(st.sampled_from([n for n in names if n != "epsilon"]), max_size=3, unique=True),
        state_filter=st.lists(st.sampled_from(names), min_size=1, max_size=6, unique=True),
        wrappers=st.lists(st.integers(1, 3), max_size=2),
        tau=st.sampled_from([1e-5, 2e-5, 1e-4]),
        calc_jacobian=st.booleans(),
    )
    keep = {k: st.one_of(st.none(), v.map(lambda x: [x])) for k, v in opt.items()}
    return st.fixed_dictionaries(keep).map(lambda d: {k: v[0] for k, v in d.items() if v is not None})


COMPONENTS = ["supply", "converter", "motor", "load", "ode_solver", "reference", "reward"]
STYLES = COMPONENTS + ["constraints", "state_filter", "wrappers", "tau", "calc_jacobian", "callbacks", "by_class", "visu"]
_style = st.fixed_dictionaries({k: st.integers(0, 5) for k in STYLES})


def _rev(d, on):
    """The same dictionary, entries (at every level) in reversed order"""
    if not on:
        return d
    # (the order of the initial states says which random number or interval belongs to which state)
    fixed = d.get("random_init") is not None
    return {k: (_rev(v, not fixed) if isinstance(v, dict) else v) for k, v in reversed(list(d.items()))}


def _tup(x, style):
    return tuple(x) if style % 2 == 0 else list(x)


def write(case, style):
    """The keyword arguments of a configuration, written in the given style.  Returns (kwargs, user's instances)."""
    env_id, val = case["id"], copy.deepcopy(case["values"])
    act, task, motor = g.split(env_id)
    tau = val.get("tau", default_tau(env_id))
    kw, inst = {}, {}

    def put(arg, cls, given, full):
        """Write one component.  given: the values of the case; full: all values incl. the defaults."""
        s = style[arg]
        if not given and arg not in val and s % 3 == 0:
            return  # nothing given: leave the argument out
        rev = s >= 3
        key = dict(reference="reference_generator", reward="reward_function").get(arg, arg)
        if s in (0, 2, 3) or full is None:
            # dictionary; default values of the environment are completed
            kw[key] = _rev(dict(full if s % 2 and full else given), rev)
        else:
            kw[key] = inst[key] = cls(**_rev(dict(full), rev))

    # -- supply
    given = dict(val.get("supply", {}))
    put("supply", ps.IdealVoltageSupply, given, dict(dict(u_nominal=u_nominal(env_id)), **given))
    # -- converter
    given = {}
    if "converter" in val:
        given["interlocking_time"] = val["converter"]["lock"] * tau
    full = dict(dict(interlocking_time=0.0), **given)
    subs = subconverters(env_id)
    if len(subs) > 1:
        s = style["converter"]
        args = dict(interlocking_time=full["interlocking_time"])
        full["subconverters"] = _tup([c(**args) if (s + k) % 2 else c for k, c in enumerate(subs)], s)
    put("converter", converter_cls(env_id), given, full)
    # -- motor
    given = {}
    for k, v in val.get("motor", {}).items():
        given[k] = g.mp_from(motor, v) if k == "motor_parameter" else g._tuplify(v) if k == "motor_initializer" else v
    if "motor_parameter" in given and style["motor"] % 2:
        # entries equal to the documented default values are left out
        given["motor_parameter"] = {
            k: v for k, v in given["motor_parameter"].items() if v != DOC_MP[motor][k] or k == "j_rotor"
        }
    full = dict(dict(motor_parameter=dict(DOC_MP[motor])), **given)
    put("motor", g.MOTOR_CLS[motor], given, full)
    # -- load
    given = dict(val.get("load", {}))
    if "load_initializer" in given:
        given["load_initializer"] = g._tuplify(given["load_initializer"])
    if task == "SC":
        # (the environments complete whole arguments, not entries of the load_parameter dictionary)
        if "load_parameter" not in given and "load" in val:
            given["load_parameter"] = dict(a=0.01, b=0.01, c=0.0, j_load=1e-3)
        elif "load_parameter" in given and style["load"] % 2:
            given["load_parameter"] = dict(dict(a=0.0, b=0.0, c=0.0, j_load=1e-5), **given["load_parameter"])
        put("load", ps.PolynomialStaticLoad, given, given or None)
    else:
        full = dict(dict(omega_fixed=230.0 if env_id == "Cont-TC-ShuntDc-v0" else 100.0), **given)
        put("load", ps.ConstantSpeedLoad, given, full)
    # -- solver
    given = dict(val.get("ode_solver", {}))
    put("ode_solver", slv.ScipyOdeSolver, given, dict(dict(integrator="dopri5"), **given))
    # -- reference generator
    if "reference" in val:
        r = val["reference"]
        args = {k: tuple(v) for k, v in r.items() if k != "states"}
        full = dict(dict(episode_lengths=(500, 2000)), **args)
        states = r["states"]
        s = style["reference"]
        if len(states) == 1:
            put("reference", rgs.WienerProcessReferenceGenerator, dict(args, reference_state=states[0]), dict(full, reference_state=states[0]))
        else:
            gens = [rgs.WienerProcessReferenceGenerator(reference_state=n, **(full if s % 2 else args)) for n in states]
            d = dict(sub_generators=_tup(gens, s))
            put("reference", rgs.MultipleReferenceGenerator, d, d)
    # -- reward function
    given = dict(val.get("reward", {}))
    full = dict(dict(reward_weights=default_weights(env_id), gamma=0.9, normed_reward_weights=False, bias=0.0), **given)
    put("reward", rfs.WeightedSumOfErrors, given, full)
    # -- the rest
    s = style["constraints"]
    if "constraints" in val:
        names = val["constraints"]
        forms = [
            lambda: tuple(names),
            lambda: list(names),
            lambda: tuple(LimitConstraint((n,)) for n in names),
            lambda: (LimitConstraint(tuple(names)),) if names else (),
            lambda: ConstraintMonitor(limit_constraints=list(names)),
            lambda: ConstraintMonitor(additional_constraints=[LimitConstraint((n,)) for n in reversed(names)]),
        ]
        kw["constraints"] = forms[s]()
    elif s % 2:
        kw["constraints"] = _tup(default_constraints(env_id), s // 2)
    if "state_filter" in val:
        kw["state_filter"] = _tup(val["state_filter"], style["state_filter"])
    elif style["state_filter"] == 1:
        kw["state_filter"] = None
    if "wrappers" in val:
        kw["physical_system_wrappers"] = _tup([psw.DeadTimeProcessor(steps=n) for n in val["wrappers"]], style["wrappers"])
    elif style["wrappers"] % 3:
        kw["physical_system_wrappers"] = _tup((), style["wrappers"])
    for name, default in (("tau", default_tau(env_id)), ("calc_jacobian", True)):
        if name in val or style[name] % 2:
            kw[name] = val.get(name, default)
    if style["callbacks"] % 3:
        kw["callbacks"] = _tup((), style["callbacks"])
    v = style["visu"]
    kw["visualization"] = g.NoVisu() if v < 2 else [g.NoVisu()] if v < 4 else ()
    return (dict(reversed(list(kw.items()))) if style["by_class"] % 3 == 2 else kw), inst


def env_class(env_id):
    mod, name = gymnasium.registry[env_id].entry_point.split(":")
    return getattr(importlib.import_module(mod), name)


def make(case, style):
    kw, inst = write(case, style)
    before = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    env = env_class(case["id"])(**kw) if style["by_class"] % 2 else gem.make(case["id"], **kw).unwrapped
    for k, v in before.items():
        check(list(kw[k].items()) == list(v.items()), f"the dictionary given for {k} has been changed", "dict-changed")
    for k, obj in inst.items():
        if k == "ode_solver":
            continue
        got = component(env, k)
        check(got is obj, lambda: f"the {k} instance given is not the one used by the environment: {got!r}", f"unused-{k}")
    return env, kw


def component(env, arg):
    p = env.physical_system.unwrapped
    return dict(
        supply=lambda: p.supply, converter=lambda: p.converter, motor=lambda: p.electrical_motor,
        load=lambda: p.mechanical_load,
        reference_generator=lambda: env.reference_generator, reward_function=lambda: env.reward_function,
    )[arg]()  # fmt: skip


def describe(env):
    p = env.physical_system
    return dict(
        tau=p.tau, state_names=list(p.state_names), reference_names=list(env.reference_names),
        limits=np.array(p.limits).tolist(), nominal=np.array(p.nominal_state).tolist(),
        motor_parameter=dict(p.unwrapped.electrical_motor.motor_parameter),
        spaces=repr((env.observation_space, env.action_space, p.state_space, p.action_space)),
        low=np.array(p.state_space.low).tolist(), high=np.array(p.state_space.high).tolist(),
        reward_range=list(map(float, env.reward_range)), u=p.unwrapped.supply.u_nominal,
        j=float(p.unwrapped.mechanical_load.j_total),
    )  # fmt: skip


def run_forms(case):
    a, kwa = make(case, case["a"])
    b, kwb = make(case, case["b"])
    da, db = describe(a), describe(b)
    for k in da:
        check(da[k] == db[k], lambda: f"{k} differs between two ways of writing the same configuration: {da[k]} vs {db[k]}", k)
    check(
        a.observation_space == b.observation_space and a.action_space == b.action_space, "spaces differ", "spaces"
    )
    ra = g.rollout(a, case["plan"], seed=case["seed"])
    rb = g.rollout(b, case["plan"], seed=case["seed"])
    check(g.same(ra, rb), lambda: "two ways of writing the same configuration: " + g.first_diff(ra, rb), "trajectory")
    differ = sum(
        1 for k in STYLES if case["a"][k] != case["b"][k] and (k in case["values"] or k in ("by_class", *COMPONENTS))
    )
    lab = [g.split(case["id"])[2]] + [f"{k}-{type(v).__name__}" for k, v in kwa.items() if k not in ("tau", "calc_jacobian")]
    return differ >= 2 and len(ra) > 3, lab


# ---------------------------------------------------------------------------------------------------------------- used
def used_paths(env_id):
    act, task, motor = g.split(env_id)
    # (the winding ratio k of the EESM cancels out of all natural quantities)
    paths = [["mp", k] for k in g.DEFAULT_MP[motor] if k != "k" and (k != "j_rotor" or task == "SC")]
    paths += [["limit", "omega"], ["limit", "torque"], ["u_nominal"], ["tau"]]
    paths += [["lock"]] if act == "Cont" else []  # finite drives: only with certain switching sequences (C07)
    paths += [["load", k] for k in (("a", "b", "c", "j_load") if task == "SC" else ("omega_fixed",))]
    paths += [["reward", k] for k in ("weight", "bias", "power", "gamma")]
    paths += [["ref", k] for k in ("sigma_range", "limit_margin", "initial_range", "state")]
    return paths + [["filter"], ["constraint"], ["wrapper"], ["solver"], ["callback"]]


def run_all_paths(case):
    """Every argument of one environment in turn"""
    for path in used_paths(case["id"]):
        for form in ("dict", "inst"):
            run_used(dict(case, path=path, form=form))
    plan = [[[u, (u * 7 + 130) % 1001, (u * 3 + 370) % 1001], 2] for u in case["us"]]
    for s in range(1, 6):  # the default configuration, left out and written out
        style = lambda v: {k: v for k in STYLES}
        run_forms(dict(id=case["id"], values={}, a=style(0), b=style(s), plan=plan, seed=case["seed"]))
    return True, [case["id"]]


def _used_cases():
    """(id, argument path, factor): a single parameter that differs from the default by a clear amount"""

    @st.composite
    def strat(draw):
        env_id = draw(g.ids)
        path = draw(st.sampled_from(used_paths(env_id)))
        return dict(
            id=env_id, path=path, factor=draw(st.sampled_from([0.5, 0.7, 1.5, 2.0])), form=draw(st.sampled_from(["dict", "inst"])),
            us=draw(st.lists(st.sampled_from([150, 300, 420, 620, 700, 850]), min_size=4, max_size=6, unique=True)),
            seed=draw(st.integers(0, 999)), k=draw(st.integers(0, 5)),
        )  # fmt: skip

    return strat()


I0 = {
    "PermExDc": dict(i=3.0), "SeriesDc": dict(i=3.0), "ShuntDc": dict(i_a=3.0, i_e=2.0), "ExtExDc": dict(i_a=3.0, i_e=2.0),
    "PMSM": dict(i_sd=-3.0, i_sq=4.0, epsilon=0.3), "SynRM": dict(i_sd=-3.0, i_sq=4.0, epsilon=0.3),
    "EESM": dict(i_sd=-3.0, i_sq=4.0, i_e=2.0, epsilon=0.3),
    "SCIM": dict(i_salpha=1.0, i_sbeta=0.5, psi_ralpha=0.0, psi_rbeta=0.0, epsilon=0.3),
    "DFIM": dict(i_salpha=1.0, i_sbeta=0.5, psi_ralpha=0.0, psi_rbeta=0.0, epsilon=0.3),
}  # fmt: skip


def _used_env(case, changed):
    """A drive with currents, speed and load torque, where every parameter has an influence."""
    env_id, path, fac, form = case["id"], case["path"], case["factor"], case["form"]
    act, task, motor = g.split(env_id)
    head, leaf = path[0], path[-1]
    tau = default_tau(env_id)
    mpar = dict(g.DEFAULT_MP[motor])
    if head == "mp" and changed:
        mpar[leaf] = mpar[leaf] + 1 if leaf == "p" else mpar[leaf] * fac
    m = dict(motor_parameter=mpar, motor_initializer=dict(states=dict(I0[motor])))
    lim = dict(omega=500.0, torque=100.0, i=400.0)
    if motor in g.IND:
        lim["i"] = 60.0
    if head == "limit" and changed:
        lim[leaf] *= fac
    m["limit_values"] = lim
    m["nominal_values"] = {k: 0.5 * v for k, v in dict(omega=500.0, torque=100.0).items()}
    kw = dict(motor=m if form == "dict" else g.MOTOR_CLS[motor](**m))
    u = 300.0 * (fac if head == "u_nominal" and changed else 1.0)
    kw["supply"] = dict(u_nominal=u) if form == "dict" else ps.IdealVoltageSupply(u_nominal=u)
    if task == "SC":
        lp = dict(a=0.5, b=0.1, c=0.01, j_load=1e-3)
        if head == "load" and changed:
            lp[leaf] *= fac
        ld = dict(load_parameter=lp, load_initializer=dict(states=dict(omega=50.0)))
        kw["load"] = ld if form == "dict" else ps.PolynomialStaticLoad(**ld)
    else:
        om = 60.0 * (fac if head == "load" and changed else 1.0)
        kw["load"] = dict(omega_fixed=om) if form == "dict" else ps.ConstantSpeedLoad(omega_fixed=om)
    if head == "tau" and changed:
        kw["tau"] = tau * fac
    if head == "lock":
        c = dict(interlocking_time=0.3 * tau if changed else 0.0)
        kw["converter"] = c
    state = ref_states(env_id)[0]
    r = dict(reference_state="torque", sigma_range=(1e-2, 1e-1), episode_lengths=(5, 8), limit_margin=(-0.5, 0.5), initial_range=(0.1, 0.2))
    if motor not in ("PermExDc", "ExtExDc", "PMSM", "SynRM", "EESM", "SCIM", "DFIM"):
        r["limit_margin"] = (0.0, 0.5)
    if head == "ref" and changed:
        r.update(
            dict(
                sigma_range=dict(sigma_range=(1e-4, 1e-3)),
                limit_margin=dict(limit_margin=(0.0, 0.05), initial_range=(0.0, 0.05)),
                initial_range=dict(initial_range=(0.3, 0.4)),
                state=dict(reference_state="omega"),
            )[leaf]
        )
    gen = rgs.WienerProcessReferenceGenerator(**r)
    if form == "dict":
        kw["reference_generator"] = r if len(ref_states(env_id)) == 1 else dict(sub_generators=[gen])
    else:
        kw["reference_generator"] = gen
    w = dict(reward_weights=dict(torque=1.0), reward_power=2, bias=0.0, gamma=0.9)
    if r["reference_state"] == "omega":
        w["reward_weights"] = dict(omega=1.0)
    constraints = ()
    if head == "reward":
        if leaf == "gamma":
            constraints = (lambda state: 1.0,)  # violated at once: the violation reward depends on gamma
        if changed:
            w.update(dict(weight=dict(reward_weights=dict(torque=fac)), bias=dict(bias=0.25), power=dict(reward_power=1), gamma=dict(gamma=0.5))[leaf])
    kw["reward_function"] = w if form == "dict" else rfs.WeightedSumOfErrors(**w)
    if head == "constraint" and changed:
        constraints = (lambda state: 1.0,) if case["k"] % 2 else (_Always(),)
    if head == "filter" and changed:
        kw["state_filter"] = ["torque", "omega"]
    if head == "wrapper" and changed:
        kw["physical_system_wrappers"] = (psw.DeadTimeProcessor(steps=1 + case["k"] % 3),)
    if head == "solver" and changed:
        kw["ode_solver"] = slv.EulerSolver()
    calls = []
    if head == "callback" and changed:
        kw["callbacks"] = [_Recorder(calls)]
    env = gem.make(env_id, visualization=g.NoVisu(), constraints=constraints, **kw).unwrapped
    return env, kw, calls, dict(mpar=mpar, u=u, lim=lim, tau=kw.get("tau", tau), w=w, state=state)


class _Always(LimitConstraint):
    """A constraint that is always violated"""

    def __init__(self):
        super().__init__(("omega",))

    def __call__(self, state):
        return 1.0


class _Recorder(gem.core.Callback):
    def __init__(self, calls):
        super().__init__()
        self.calls = calls

    def on_step_begin(self, k, action):
        self.calls.append(("step", k))

    def on_reset_begin(self):
        self.calls.append(("reset",))


def run_used(case):
    head, leaf = case["path"][0], case["path"][-1]
    act, task, motor = g.split(case["id"])
    a, *_ = _used_env(case, False)
    b, kw, calls, v = _used_env(case, True)
    p = b.physical_system.unwrapped
    check(p.tau == v["tau"], f"tau {p.tau} instead of the given {v['tau']}", "tau")
    check(p.supply.u_nominal == v["u"], f"u_nominal {p.supply.u_nominal} instead of {v['u']}", "u")
    got = p.electrical_motor.motor_parameter
    for k, x in v["mpar"].items():
        check(got[k] == x, f"motor parameter {k}: {got[k]} instead of the given {x}", "mp")
    for k in ("omega", "torque"):
        lim = b.physical_system.limits[b.physical_system.state_positions[k]]
        check(lim == v["lim"][k], f"limit of {k}: {lim} instead of the given {v['lim'][k]}", "limit")
    plan = [[[u, (u * 7 + 130) % 1001, (u * 3 + 370) % 1001], 2] for u in case["us"]]
    ra = g.rollout(a, plan, seed=case["seed"], auto_reset=False)
    rb = g.rollout(b, plan, seed=case["seed"], auto_reset=False)
    if head == "callback":
        n = sum(1 for c in calls if c[0] == "step")
        check(n == len(rb) - 1 and ("reset",) in calls, f"the callback given was called for {n} of {len(rb) - 1} steps", "callback")
        return True, [head]
    check(
        not g.same(ra, rb),
        lambda: f"the value given for {'/'.join(case['path'])} (form {case['form']}) has no influence on {case['id']}: {len(rb)} "
        "identical entries",
        f"no-influence-{head}",
    )
    return True, [head, motor, case["form"]]


# -------------------------------------------------------------------------------------------------------------- reject
def _bad(name, known):
    return name not in known and name.lower() not in {k.lower() for k in known}


PLACES = [
    "motor_parameter", "motor_parameter_inst", "limit_values", "nominal_values", "motor_initializer", "motor_arg", "supply_arg",
    "rc_parameter", "ac_parameter", "converter_arg", "load_parameter", "load_initializer", "load_arg", "const_load_arg",
    "solver_arg", "reward_weights", "reward_power", "reward_arg", "reference_state", "reference_state_sub", "reference_arg",
    "state_filter", "constraint", "limit_constraint", "squared_constraint", "noise_state", "cossin_angle", "sum_currents",
    "id", "string", "class", "wrong_type", "wrong_component", "init_state",
]  # fmt: skip
ALPHA = "abcdefghijklmnopqrstuvwxyz_"


@st.composite
def _reject_cases(draw):
    env_id = draw(g.ids)
    kind = draw(st.integers(0, 3))
    if kind == 0:
        name = draw(st.text(ALPHA, min_size=1, max_size=8))
    else:  # near misses of real names
        base = draw(
            st.sampled_from(
                ["omega", "torque", "i_sd", "i_a", "i", "u_sup", "r_s", "l_d", "r_a", "psi_p", "j_rotor", "a", "j_load", "u_nominal"]
                + ["R", "C", "frequency", "phase", "tau", "states", "interval", "omega_fixed", "reward_weights", "gamma", "bias"]
            )
        )
        name = draw(st.sampled_from([base + "_", base + "x", "_" + base, base + base, base[::-1] + "q", base + " "]))
    return dict(id=env_id, place=draw(st.sampled_from(PLACES)), name=name, valid=draw(st.booleans()), comp=draw(st.integers(0, 6)))


def run_reject(case):
    env_id, place, name, valid = case["id"], case["place"], case["name"], case["valid"]
    act, task, motor = g.split(env_id)
    states = g.SYSTEM_STATES[motor]
    mk = lambda **kw: gem.make(env_id, visualization=g.NoVisu(), **kw).unwrapped
    cls = g.MOTOR_CLS[motor]

    def with_valid(d, ok):
        """the unknown entry alone or after a valid one"""
        return {**ok, **d} if valid else d

    comps = ["supply", "converter", "motor", "load", "ode_solver", "reward_function", "reference_generator"]
    comp = comps[case["comp"]]
    builders = dict(
        motor_parameter=(g.DEFAULT_MP[motor], lambda: mk(motor=dict(motor_parameter=with_valid({name: 1.0}, dict(j_rotor=0.01))))),
        motor_parameter_inst=(g.DEFAULT_MP[motor], lambda: cls(motor_parameter=with_valid({name: 1.0}, dict(j_rotor=0.01)))),
        limit_values=(None, lambda: mk(motor=dict(limit_values=with_valid({name: 100.0}, dict(torque=100.0))))),
        nominal_values=(None, lambda: mk(motor=dict(nominal_values=with_valid({name: 100.0}, dict(torque=10.0))))),
        motor_initializer=(["states", "interval", "random_init", "random_params"], lambda: mk(motor=dict(motor_initializer=with_valid({name: 1.0}, dict(states=dict(I0[motor])))))),
        motor_arg=(["motor_parameter", "nominal_values", "limit_values", "motor_initializer", "initial_limits"], lambda: mk(motor={name: 1.0})),
        supply_arg=(["u_nominal"], lambda: mk(supply=with_valid({name: 1.0}, dict(u_nominal=100.0)))),
        rc_parameter=(["R", "C"], lambda: mk(supply=ps.RCVoltageSupply(supply_parameter=with_valid({name: 1.0}, dict(R=1.0, C=1e-3))))),
        ac_parameter=(["frequency", "phase"], lambda: mk(supply=ps.AC1PhaseSupply(supply_parameter=with_valid({name: 1.0}, dict(frequency=50))))),
        converter_arg=(["tau", "interlocking_time", "subconverters", "dead_time", "use_dead_time"], lambda: mk(converter=with_valid({name: 1.0}, dict(interlocking_time=0.0)))),
        load_parameter=(["a", "b", "c", "j_load"], lambda: mk(load=ps.PolynomialStaticLoad(load_parameter=with_valid({name: 1.0}, dict(a=0.1))))),
        load_initializer=(["states", "interval", "random_init", "random_params"], lambda: mk(load=ps.PolynomialStaticLoad(load_initializer=with_valid({name: 1.0}, dict(states=dict(omega=1.0)))))),
        load_arg=(["load_parameter", "limits", "load_initializer", "omega_fixed", "kwargs"], lambda: mk(load={name: 1.0})),
        const_load_arg=(["omega_fixed", "load_initializer", "kwargs", "j_load", "state_names", "omega_range"], lambda: mk(load=ps.ConstantSpeedLoad(**with_valid({name: 1.0}, dict(omega_fixed=1.0))))),
        solver_arg=(
            ["integrator", "rtol", "atol", "nsteps", "max_step", "first_step", "safety", "ifactor", "dfactor", "beta", "method", "verbosity"],
            lambda: mk(ode_solver={name: 1.0}).reset(),
        ),
        reward_weights=(states, lambda: mk(reward_function=dict(reward_weights=with_valid({name: 1.0}, dict(omega=1.0))))),
        reward_power=(states, lambda: mk(reward_function=dict(reward_weights=dict(omega=1.0), reward_power=with_valid({name: 1.0}, dict(omega=1.0))))),
        reward_arg=(["reward_weights", "normed_reward_weights", "violation_reward", "gamma", "reward_power", "bias"], lambda: mk(reward_function={name: 1.0})),
        reference_state=(states, lambda: mk(reference_generator=rgs.WienerProcessReferenceGenerator(reference_state=name))),
        reference_state_sub=(states, lambda: mk(reference_generator=rgs.MultipleReferenceGenerator([rgs.ConstReferenceGenerator(reference_state="omega"), rgs.ConstReferenceGenerator(reference_state=name)]))),
        reference_arg=(
            ["reference_state", "sigma_range", "initial_range", "episode_lengths", "limit_margin", "random_generator", "kwargs"],
            lambda: mk(reference_generator=rgs.WienerProcessReferenceGenerator(reference_state="omega", **{name: 1})),
        ),
        state_filter=(states, lambda: mk(state_filter=["omega", name] if valid else [name])),
        constraint=(states + ["all_states", "all"], lambda: mk(constraints=("omega", name) if valid else (name,))),
        limit_constraint=(states + ["all_states", "all"], lambda: mk(constraints=(LimitConstraint(("omega", name) if valid else (name,)),))),
        squared_constraint=(states, lambda: mk(constraints=(SquaredConstraint((name, "omega")),))),
        noise_state=(states + ["all"], lambda: mk(physical_system_wrappers=(psw.StateNoiseProcessor(["omega", name] if valid else [name]),))),
        cossin_angle=(states, lambda: mk(physical_system_wrappers=(psw.CosSinProcessor(name),))),
        sum_currents=(states, lambda: mk(physical_system_wrappers=(psw.CurrentSumProcessor([name]),))),
        id=(None, lambda: gem.make(env_id.replace("-v0", name + "-v0"), visualization=g.NoVisu())),
        string=(None, lambda: mk(**{comp: name})),
        **{"class": (None, lambda: mk(**{comp: dict(supply=ps.IdealVoltageSupply, converter=converter_cls(env_id), motor=cls, load=ps.ConstantSpeedLoad, ode_solver=slv.EulerSolver, reward_function=rfs.WeightedSumOfErrors, reference_generator=rgs.ZeroReferenceGenerator)[comp]}))},
        wrong_type=(None, lambda: mk(**{comp: 3.5 if valid else object()})),
        wrong_component=(None, lambda: mk(**{comp: rfs.WeightedSumOfErrors(reward_weights=dict(omega=1)) if comp != "reward_function" else slv.EulerSolver()})),
        init_state=(list(I0[motor]) + ["omega"], lambda: mk(motor=dict(motor_initializer=dict(states={**{k: 0.0 for k in I0[motor]}, name: 0.5}))).reset()),
    )  # fmt: skip
    known, build = builders[place]
    if place in ("limit_values", "nominal_values"):
        known = {"omega", "torque", "i", "u", "epsilon"} | {
            p + s for p in ("i_", "u_") for s in ("a", "b", "c", "d", "q", "e", "s", "r", "sa", "sb", "sc", "sd", "sq", "ra", "rb", "rc", "rd", "rq", "alpha", "beta", "salpha", "sbeta", "ralpha", "rbeta", "sup")
        } | {"psi_ralpha", "psi_rbeta", "psi_rd", "psi_rq", "psi_abs"}  # fmt: skip
    if known is not None and not _bad(name, known):
        return False, [place, "known"]
    try:
        build()
    except Exception:
        return True, [place]
    check(False, f"{env_id}: the unknown name or unsupported value {name!r} was accepted as {place}", f"accepted-{place}")


def _forms_cases():
    return g.ids.flatmap(
        lambda i: st.fixed_dictionaries(
            dict(id=st.just(i), values=_values(i), a=_style, b=_style, plan=g.segments(4, 4), seed=st.integers(0, 10**6))
        )
    )


def _all_cases(act, task):
    """The nine environments of this group: few enough values that all of them are generated."""
    return st.sampled_from(
        [
            dict(id=i, factor=0.7, us=[300, 850, 150, 620, 420], seed=11 + k, k=k)
            for k, i in enumerate(i for i in g.IDS if g.split(i)[:2] == (act, task))
        ]
    )


SUBS = [
    *(
        Sub(f"all_{a}_{t}", _all_cases(a, t), run_all_paths, 9, 9, shards=1, cpu_s=60)
        for a in ("Finite", "Cont")
        for t in ("SC", "TC", "CC")
    ),
    Sub("forms", _forms_cases(), run_forms, 3000, 60000, shards=8),
    Sub("used", _used_cases(), run_used, 1600, 30000, shards=8),
    Sub("reject", _reject_cases(), run_reject, 1600, 20000, shards=8),
]
