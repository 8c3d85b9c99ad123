"""Environment identifiers, JSON-able environment specifications, builders and Hypothesis strategies."""
import json

import numpy as np
from hypothesis import strategies as st

import gym_electric_motor as gem
from gym_electric_motor import physical_system_wrappers as psw
from gym_electric_motor import physical_systems as ps
from gym_electric_motor import reference_generators as rgs
from gym_electric_motor import reward_functions as rfs
from gym_electric_motor.core import ElectricMotorVisualization
from gym_electric_motor.physical_systems import solvers as slv

MOTORS = ["PermExDc", "ExtExDc", "SeriesDc", "ShuntDc", "PMSM", "SynRM", "EESM", "SCIM", "DFIM"]
DC = ["PermExDc", "ExtExDc", "SeriesDc", "ShuntDc"]
SYNC = ["PMSM", "SynRM", "EESM"]
IND = ["SCIM", "DFIM"]
IDS = [f"{a}-{t}-{m}-v0" for m in MOTORS for a in ("Finite", "Cont") for t in ("SC", "TC", "CC")]
MOTOR_CLS = dict(
    PermExDc=ps.DcPermanentlyExcitedMotor,
    ExtExDc=ps.DcExternallyExcitedMotor,
    SeriesDc=ps.DcSeriesMotor,
    ShuntDc=ps.DcShuntMotor,
    PMSM=ps.PermanentMagnetSynchronousMotor,
    SynRM=ps.SynchronousReluctanceMotor,
    EESM=ps.ExternallyExcitedSynchronousMotor,
    SCIM=ps.SquirrelCageInductionMotor,
    DFIM=ps.DoublyFedInductionMotor,
)
DEFAULT_MP = {
    "PermExDc": dict(r_a=16e-3, l_a=19e-6, psi_e=0.165, j_rotor=0.025),
    "ExtExDc": dict(r_a=16e-3, r_e=16e-2, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
    "SeriesDc": dict(r_a=16e-3, r_e=48e-3, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
    "ShuntDc": dict(r_a=16e-3, r_e=4e-1, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
    "PMSM": dict(p=3, l_d=0.37e-3, l_q=1.2e-3, j_rotor=0.03883, r_s=18e-3, psi_p=66e-3),
    "SynRM": dict(p=4, l_d=10.1e-3, l_q=4.1e-3, j_rotor=0.8e-3, r_s=0.57),
    "EESM": dict(
        p=3, l_d=1.66e-3, l_q=0.35e-3, l_m=1.2e-3, l_e=1.74e-3, j_rotor=0.3883, r_s=15.55e-3, r_e=7.2e-3, k=65.21
    ),
    "SCIM": dict(p=2, l_m=143.75e-3, l_sigs=5.87e-3, l_sigr=5.87e-3, j_rotor=1.1e-3, r_s=2.9338, r_r=1.355),
    "DFIM": dict(p=2, l_m=297.5e-3, l_sigs=25.71e-3, l_sigr=25.71e-3, j_rotor=13.695e-3, r_s=4.42, r_r=3.51),
}


def split(env_id):
    a, t, m, _ = env_id.split("-")
    return a, t, m


# ---------------------------------------------------------------------------------------------- environments
class NoVisu(ElectricMotorVisualization):
    """A visualization that does nothing."""


_SOLVERS = {
    "euler": lambda: slv.EulerSolver(),
    "euler4": lambda: slv.EulerSolver(nsteps=4),
    "dopri5": lambda: slv.ScipyOdeSolver("dopri5"),
    "dop853": lambda: slv.ScipyOdeSolver("dop853"),
    "lsoda": lambda: slv.ScipyOdeSolver("lsoda"),
    "vode": lambda: slv.ScipyOdeSolver("vode"),
    "RK45": lambda: slv.ScipySolveIvpSolver(method="RK45", rtol=1e-6, atol=1e-9),
    "RK23": lambda: slv.ScipySolveIvpSolver(method="RK23"),
    "Radau": lambda: slv.ScipySolveIvpSolver(method="Radau"),
    "BDF": lambda: slv.ScipySolveIvpSolver(method="BDF"),
    "LSODA_ivp": lambda: slv.ScipySolveIvpSolver(method="LSODA"),
    "odeint": lambda: slv.ScipyOdeIntSolver(),
}


def solver(name):
    return _SOLVERS[name]()


def mp_from(motor, scale):
    """Default motor parameters times 2**(exponent/8); scale: {name: exponent}.  Integers (p) stay integers."""
    mp = dict(DEFAULT_MP[motor])
    for k, e in scale.items():
        if k in mp:
            mp[k] = e if k == "p" else mp[k] * 2.0 ** (e / 8)
    return mp


POS_LIMIT, POS_NOMINAL = 1e4, 8e3


def _with_position(base, front):
    """a load of the user with a second mechanical state, the position d(position)/dt = omega, behind or in front of omega"""

    class PositionLoad(base):
        OMEGA_IDX = 1 if front else 0

        def __init__(self, position=0.0, **kw):
            super().__init__(**kw)
            self.initial_position = float(position)

        @property
        def state_names(self):
            return ["position", "omega"] if front else ["omega", "position"]

        @property
        def limits(self):
            return {**super().limits, "position": POS_LIMIT}

        @property
        def nominal_values(self):
            return {**super().nominal_values, "position": POS_NOMINAL}

        def _join(self, position, omega):
            return np.array([position, omega] if front else [omega, position], dtype=float)

        def mechanical_ode(self, t, mechanical_state, torque=None):
            w = super().mechanical_ode(t, mechanical_state, torque)
            return self._join(mechanical_state[self.OMEGA_IDX], w[0])

        def mechanical_jacobian(self, t, mechanical_state, torque):
            j, g = super().mechanical_jacobian(t, mechanical_state, torque)
            w, pos = self._join(0.0, j[0, 0]), self._join(0.0, 1.0)
            return np.array([pos, w] if front else [w, pos]), self._join(0.0, g[0])

        def reset(self, **kw):
            return self._join(self.initial_position, np.ravel(super().reset(**kw))[0])

        def get_state_space(self, omega_range):
            low, high = super().get_state_space(omega_range)
            return {**low, "position": -1.0}, {**high, "position": 1.0}

    return PositionLoad


def load(desc):
    """desc: dict(kind, ...); pos ("front"/"back") adds the position as a mechanical state"""
    kind = desc["kind"]

    def make(cls, **kw):
        if desc.get("pos"):
            return _with_position(cls, desc["pos"] == "front")(position=desc.get("pos0", 0.0), **kw)
        return cls(**kw)

    if kind == "static":
        return make(
            ps.PolynomialStaticLoad,
            load_parameter=dict(a=desc["a"], b=desc["b"], c=desc["c"], j_load=desc["j"]),
            **({"load_initializer": _tuplify(json.loads(json.dumps(desc["init"])))} if desc.get("init") else {}),
        )
    if kind == "const":
        return make(ps.ConstantSpeedLoad, omega_fixed=desc["omega"])
    if kind == "ou":
        return make(
            ps.OrnsteinUhlenbeckLoad,
            mu=desc["mu"], sigma=desc["sigma"], theta=desc["theta"], tau=desc["tau"], omega_range=(-50.0, 150.0),
        )  # fmt: skip
    if kind == "ext":
        amp, f = desc["amp"], desc["f"]
        return make(ps.ExternalSpeedLoad, speed_profile=lambda t: amp * np.sin(2 * np.pi * f * t), tau=desc["tau"])
    raise ValueError(kind)


def supply(desc):
    kind, u = desc["kind"], desc["u"]
    if kind == "ideal":
        return ps.IdealVoltageSupply(u_nominal=u)
    if kind == "rc":
        return ps.RCVoltageSupply(u_nominal=u, supply_parameter=dict(R=desc["R"], C=desc["C"]))
    if kind == "ac1":
        sp = dict(frequency=desc["f"])
        if desc["fixed"]:  # otherwise a random phase per episode
            sp["phase"] = desc["phase"]
        return ps.AC1PhaseSupply(u_nominal=u, supply_parameter=sp)
    raise ValueError(kind)


def reference(desc, default_state):
    """desc: dict(kind, state?, ...) -> reference generator instance"""
    kind = desc["kind"]
    s = desc.get("state") or default_state
    kw = dict(desc.get("kw", {}))
    for k, v in kw.items():
        if isinstance(v, list):
            kw[k] = tuple(v)
    cls = dict(
        const=rgs.ConstReferenceGenerator,
        zero=rgs.ZeroReferenceGenerator,
        wiener=rgs.WienerProcessReferenceGenerator,
        laplace=rgs.LaplaceProcessReferenceGenerator,
        sinus=rgs.SinusoidalReferenceGenerator,
        triangle=rgs.TriangularReferenceGenerator,
        saw=rgs.SawtoothReferenceGenerator,
        step=rgs.StepReferenceGenerator,
    )
    if kind == "switched":
        return rgs.SwitchedReferenceGenerator([reference(d, s) for d in desc["subs"]], **kw)
    if kind == "multiple":
        return rgs.MultipleReferenceGenerator([reference(d, d["state"]) for d in desc["subs"]])
    if kind == "zero":
        return cls[kind]()
    return cls[kind](reference_state=s, **kw)


def wrapper(desc, motor):
    """desc: dict(kind=..., ...)"""
    kind = desc["kind"]
    if kind == "cossin":
        return psw.CosSinProcessor(angle="epsilon", remove_angle=desc.get("remove", False))
    if kind == "sum":
        return psw.CurrentSumProcessor(currents=tuple(desc["currents"]), limit=desc.get("limit", "max"))
    if kind == "dead":
        return psw.DeadTimeProcessor(steps=desc["steps"])
    if kind == "noise":
        return psw.StateNoiseProcessor(
            states=desc["states"], random_dist=desc.get("dist", "normal"), random_kwargs=dict(desc.get("kw", {}))
        )
    if kind == "flux":
        return psw.FluxObserver()
    if kind == "dq":
        return psw.DqToAbcActionProcessor.make(motor)
    raise ValueError(kind)


def build(spec, **extra):
    """Build the environment of a JSON spec.  Returns the unwrapped environment."""
    act, task, motor = split(spec["id"])
    kw = {}
    if spec.get("tau"):
        kw["tau"] = spec["tau"]
    tau = spec.get("tau") or (1e-4 if act == "Cont" else 1e-5)
    if spec.get("solver"):
        kw["ode_solver"] = solver(spec["solver"])
    if spec.get("jac") is not None:
        kw["calc_jacobian"] = bool(spec["jac"])
    if spec.get("lock"):
        kw["converter"] = dict(interlocking_time=spec["lock"] * tau)
    if spec.get("supply"):
        kw["supply"] = supply(spec["supply"])
    m = {}
    if spec.get("mp"):
        m["motor_parameter"] = mp_from(motor, spec["mp"])
    if spec.get("minit"):
        m["motor_initializer"] = _tuplify(json.loads(json.dumps(spec["minit"])))
    if spec.get("limits"):
        m["limit_values"] = dict(spec["limits"])
    if spec.get("nominal"):
        m["nominal_values"] = dict(spec["nominal"])
    if m:
        kw["motor"] = MOTOR_CLS[motor](**m)
    if spec.get("load"):
        d = dict(spec["load"])
        d.setdefault("tau", tau)
        kw["load"] = load(d)
    if spec.get("ref"):
        kw["reference_generator"] = reference(spec["ref"], None)
    if spec.get("reward"):
        r = dict(spec["reward"])
        kw["reward_function"] = rfs.WeightedSumOfErrors(**r)
    if spec.get("constraints") is not None:
        kw["constraints"] = tuple(spec["constraints"])
    if spec.get("filter") is not None:
        kw["state_filter"] = list(spec["filter"])
    if spec.get("wrappers"):
        kw["physical_system_wrappers"] = tuple(wrapper(w, motor) for w in spec["wrappers"])
    kw["visualization"] = NoVisu()
    kw.update(extra)
    return gem.make(spec["id"], **kw).unwrapped


def _tuplify(init):
    if init.get("random_params") is not None:
        init["random_params"] = tuple(init["random_params"])
    return init


# ---------------------------------------------------------------------------------------------- action sequences
def action(space, us):
    """Map a list of integers 0..1000 onto an element of the action space (0 and 1000 are the ends)."""
    name = type(space).__name__
    if name == "Discrete":
        return int(us[0] * (space.n - 1) / 1000 + 0.5)
    if name == "MultiDiscrete":
        return np.array([int(u * (n - 1) / 1000 + 0.5) for u, n in zip(_cyc(us, len(space.nvec)), space.nvec)])
    lo, hi = space.low, space.high
    u = np.array(_cyc(us, len(lo)), dtype=float) / 1000
    return lo + (hi - lo) * u


def _cyc(us, n):
    return [us[i % len(us)] for i in range(n)]


def whole(lo, hi):
    """Integers of a large range, composed of two small ones (hypothesis prefers small values of large ranges)."""
    m = max(-lo, hi)
    q = int(m**0.5) + 1
    signs = st.sampled_from([1] * (hi > 0) + [-1] * (lo < 0))
    return st.tuples(signs, st.integers(0, q), st.integers(0, q)).map(lambda t: max(lo, min(hi, t[0] * (t[1] * q + t[2]))))


U = st.one_of(st.sampled_from([0, 500, 1000]), whole(0, 1000))
UVEC = st.lists(U, min_size=1, max_size=6)


def segments(max_segments=12, max_hold=12):
    """Action plan: list of [u-vector, hold]."""
    return st.lists(st.tuples(UVEC, st.integers(1, max_hold)).map(list), min_size=1, max_size=max_segments)


def expand(space, plan):
    for us, hold in plan:
        a = action(space, us)
        for _ in range(hold):
            yield a


def rollout(env, plan, seed=None, auto_reset=True, record_ref=True):
    """Play the plan; on termination reset (unseeded).  Returns the list of everything the environment returned."""
    out = []
    (s, r), info = env.reset(seed=seed)
    out.append(("reset", s.copy(), np.copy(r)))
    for a in expand(env.action_space, plan):
        (s, r), rew, term, trunc, info = env.step(a)
        out.append(("step", s.copy(), np.copy(r), float(rew), bool(term)))
        if term:
            if not auto_reset:
                break
            (s, r), info = env.reset()
            out.append(("reset", s.copy(), np.copy(r)))
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y):
            return False
        for p, q in zip(x[1:], y[1:]):
            if not np.array_equal(np.asarray(p), np.asarray(q), equal_nan=True):
                return False
    return True


def close(a, b, rtol=1e-7, atol=1e-9):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        for p, q in zip(x[1:], y[1:]):
            if not np.allclose(np.asarray(p, float), np.asarray(q, float), rtol=rtol, atol=atol, equal_nan=True):
                return False
    return True


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0]:
            return f"entry {i}: {x[0]} vs {y[0]}"
        for p, q in zip(x[1:], y[1:]):
            if not np.array_equal(np.asarray(p), np.asarray(q), equal_nan=True):
                return f"entry {i} ({x[0]}): {np.asarray(p).tolist()} vs {np.asarray(q).tolist()}"
    return f"lengths {len(a)} vs {len(b)}"


# ---------------------------------------------------------------------------------------------- spec strategies
def f(lo, hi, digits=4):
    """JSON-friendly float on a grid, sometimes an end point or the middle.

    Two integers, as hypothesis prefers small values when a range has more than about 1000 members."""
    n = 10 ** (digits // 2)
    special = {n + 1: 0, n + 2: 0, n + 3: n * n, n + 4: n * n, n + 5: n * n // 2}

    def value(t):
        k = special.get(t[0], min(t[0], n - 1) * n + t[1])
        return float(lo + (hi - lo) * k / n**2)

    return st.tuples(st.integers(0, n + 5), st.integers(0, n)).map(value)


def log(lo, hi, n=64):
    return st.integers(0, n).map(lambda k: float(lo * (hi / lo) ** (k / n)))


ids = st.sampled_from(IDS)


def maybe(required, optional):
    """fixed_dictionaries where each optional key is present about half of the time"""
    keep = {k: st.one_of(st.none(), v.map(lambda x: [x])) for k, v in optional.items()}
    return st.tuples(st.fixed_dictionaries(required), st.fixed_dictionaries(keep)).map(
        lambda t: {**t[0], **{k: v[0] for k, v in t[1].items() if v is not None}}
    )


def mp_scale(motor):
    names = [n for n in DEFAULT_MP[motor] if n != "p"]
    d = {n: st.integers(-12, 12) for n in names}
    if motor == "EESM":
        # keep the leakage factor of the machine positive (see DESIGN.md, EESM)
        for n in ("l_m",):
            d[n] = st.integers(-12, 0)
        d["l_d"] = st.integers(0, 12)
        d["l_e"] = st.integers(0, 12)
    if "p" in DEFAULT_MP[motor]:
        d["p"] = st.integers(1, 5)
    return st.fixed_dictionaries({}, optional=d)


def loads(motor="PermExDc"):
    # the speed range of the series and shunt drives is [0, limit]: negative initial speeds are rejected
    pos = motor in ("SeriesDc", "ShuntDc")
    return st.one_of(
        st.fixed_dictionaries(dict(kind=st.just("const"), omega=f(0 if pos else -150, 150))),
        st.fixed_dictionaries(
            dict(kind=st.just("static"), a=f(0, 1), b=f(0, 0.1), c=f(0, 0.01), j=log(1e-4, 1e-1)),
            optional=dict(
                init=st.one_of(
                    st.fixed_dictionaries(dict(states=st.fixed_dictionaries(dict(omega=f(0, 100))))),
                    st.just(dict(states=dict(omega=0.0), random_init="uniform")),
                    st.just(dict(states=dict(omega=0.0), random_init="uniform", interval=[[10.0, 40.0]])),
                    st.just(dict(states=dict(omega=0.0), random_init="gaussian", random_params=[30.0, 5.0])),
                )
            ),
        ),
        st.fixed_dictionaries(
            dict(kind=st.just("ou"), mu=f(0 if pos else -20, 80), sigma=f(0, 5), theta=f(0, 10))
        ),
        st.fixed_dictionaries(dict(kind=st.just("ext"), amp=f(0, 120), f=f(0, 50))),
    )


def supplies(motor, ac=False):
    u = st.sampled_from([24.0, 60.0, 300.0, 420.0])
    opts = [
        st.fixed_dictionaries(dict(kind=st.just("ideal"), u=u)),
        st.fixed_dictionaries(dict(kind=st.just("rc"), u=u, R=log(1e-3, 1), C=log(1e-3, 1e-1))),
    ]
    if ac and motor in DC:
        ac1 = dict(kind=st.just("ac1"), u=u, f=st.sampled_from([50.0, 60.0, 400.0]), fixed=st.booleans(), phase=f(0, 6))
        opts += [st.fixed_dictionaries(ac1)] * 2
    return st.one_of(opts)


CURRENTS = dict(
    PermExDc=["i"], SeriesDc=["i"], ShuntDc=["i_a", "i_e"], ExtExDc=["i_a", "i_e"],
    PMSM=["i_sd", "i_sq"], SynRM=["i_sd", "i_sq"], EESM=["i_sd", "i_sq", "i_e"], SCIM=["i_sd", "i_sq"],
    DFIM=["i_sd", "i_sq"],
)  # fmt: skip

SYSTEM_STATES = {
    "PermExDc": ["omega", "torque", "i", "u", "u_sup"],
    "SeriesDc": ["omega", "torque", "i", "u", "u_sup"],
    "ShuntDc": ["omega", "torque", "i_a", "i_e", "u", "u_sup"],
    "ExtExDc": ["omega", "torque", "i_a", "i_e", "u_a", "u_e", "u_sup"],
    "PMSM": ["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "u_a", "u_b", "u_c", "u_sd", "u_sq", "epsilon", "u_sup"],
    "EESM": ["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "i_e", "u_a", "u_b", "u_c", "u_sd", "u_sq", "u_e", "epsilon", "u_sup"],
    "SCIM": ["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "epsilon", "u_sup"],
    "DFIM": ["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "i_ra", "i_rb", "i_rc", "i_rd", "i_rq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "u_ra", "u_rb", "u_rc", "u_rd", "u_rq", "epsilon", "u_sup"],
}  # fmt: skip
SYSTEM_STATES["SynRM"] = SYSTEM_STATES["PMSM"]


def refs(motor, task=None, short=True):
    """Reference generator descriptions for any state of the motor that may be referenced."""
    names = ["omega", "torque"] + CURRENTS[motor]

    def single(state):
        lens = dict(episode_lengths=st.sampled_from([[1, 5], [3, 20], [10, 10]]))
        per = dict(frequency_range=st.sampled_from([[1, 10], [100, 2000]]), **lens)
        return st.one_of(
            st.fixed_dictionaries(
                dict(kind=st.just("const"), state=st.just(state), kw=st.fixed_dictionaries(dict(reference_value=f(0, 1))))
            ),
            st.fixed_dictionaries(
                dict(
                    kind=st.sampled_from(["wiener", "laplace"]),
                    state=st.just(state),
                    kw=st.fixed_dictionaries(dict(sigma_range=st.sampled_from([[1e-3, 1e-1], [1e-2, 1.0]]), **lens)),
                )
            ),
            st.fixed_dictionaries(
                dict(
                    kind=st.sampled_from(["sinus", "triangle", "saw", "step"]),
                    state=st.just(state),
                    kw=st.fixed_dictionaries(per),
                )
            ),
        )

    one = st.sampled_from(names).flatmap(single)
    switched = st.sampled_from(names).flatmap(
        lambda s: st.fixed_dictionaries(
            dict(
                kind=st.just("switched"),
                subs=st.lists(single(s), min_size=1, max_size=3),
                kw=st.just(dict(super_episode_length=[2, 15])),
            )
        )
    )
    multiple = st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True).flatmap(
        lambda ns: st.fixed_dictionaries(dict(kind=st.just("multiple"), subs=st.tuples(*[single(n) for n in ns]).map(list)))
    )
    return st.one_of(one, switched, multiple, one)


def rewards(motor):
    names = ["omega", "torque"] + CURRENTS[motor]
    return st.fixed_dictionaries(
        dict(
            reward_weights=st.dictionaries(st.sampled_from(names), f(0, 2), min_size=1, max_size=3),
            gamma=st.sampled_from([0.0, 0.5, 0.9, 0.99]),
            reward_power=st.sampled_from([1, 2, 0.5, 3]),
            bias=st.one_of(st.sampled_from(["positive", 0.0]), f(-1, 1)),
            normed_reward_weights=st.booleans(),
        )
    ).filter(lambda d: sum(d["reward_weights"].values()) > 0)


def minits(motor):
    names = {
        "PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"],
        "PMSM": ["i_sd", "i_sq", "epsilon"], "SynRM": ["i_sd", "i_sq", "epsilon"],
        "EESM": ["i_sd", "i_sq", "i_e", "epsilon"],
    }.get(motor)  # fmt: skip
    if names is None:
        ims = ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"]
        zero = {n: 0.0 for n in ims}
        # gaussian: the flux bounds may be an empty interval, which scipy rejects (see DESIGN.md)
        return st.just(dict(states=zero, random_init="uniform", interval=None, random_params=[None, None]))
    full = [n for n in names if n != "epsilon"]
    states = st.fixed_dictionaries({n: (f(-5, 5) if n not in ("epsilon",) else f(-3, 3)) for n in names})
    return st.one_of(
        st.fixed_dictionaries(dict(states=states)),
        st.fixed_dictionaries(
            dict(states=st.just({n: 0.0 for n in names}), random_init=st.just("uniform"))
        ),
        st.fixed_dictionaries(
            dict(
                states=st.just({n: 0.0 for n in names}),
                random_init=st.just("gaussian"),
                random_params=st.tuples(f(0.5, 3), f(0.2, 2)).map(list),
            )
        ),
    )


SOLVER_NAMES = ["euler", "euler4", "dopri5", "RK45", "odeint", "lsoda"]


def specs(ids_=None, features=(), p_feature=0.4):
    """Generic environment specifications.  features: names of the optional parts to vary."""

    @st.composite
    def _spec(draw):
        env_id = draw(st.sampled_from(ids_ or IDS))
        act, task, motor = split(env_id)
        spec = dict(id=env_id)

        def use(name):
            return name in features and draw(st.integers(0, 9)) < p_feature * 10

        if use("tau"):
            spec["tau"] = draw(st.sampled_from([1e-5, 2e-5, 1e-4, 5e-4]))
        if use("solver"):
            spec["solver"] = draw(st.sampled_from(SOLVER_NAMES))
        if use("jac"):
            spec["jac"] = draw(st.booleans())
        if use("lock"):
            spec["lock"] = draw(st.sampled_from([0.02, 0.1, 0.4]))
        if use("supply"):
            spec["supply"] = draw(supplies(motor, "ac" in features))
        if use("mp"):
            spec["mp"] = draw(mp_scale(motor))
        if use("minit"):
            mi = minits(motor)
            if mi is not None:
                spec["minit"] = draw(mi)
        if use("load"):
            spec["load"] = draw(loads(motor))
            if spec["load"]["kind"] != "ou" and draw(st.integers(0, 4)) == 0:
                spec["load"] = dict(spec["load"], pos=draw(st.sampled_from(["front", "back"])), pos0=draw(f(-500, 500)))
        if use("ref"):
            spec["ref"] = draw(refs(motor, task))
        if use("reward"):
            spec["reward"] = draw(rewards(motor))
        if use("constraints"):
            spec["constraints"] = draw(
                st.one_of(
                    st.just([]),
                    st.just(["all_states"]) if False else st.just(list(CURRENTS[motor])),
                    st.just(["omega"]),
                )
            )
        if use("wrappers"):
            spec["wrappers"] = draw(wrapper_stacks(motor, act))
        if use("filter"):
            names = SYSTEM_STATES[motor]
            if any(w["kind"] == "cossin" and w["remove"] for w in spec.get("wrappers", [])):
                names = [n for n in names if n != "epsilon"]
            spec["filter"] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=6, unique=True))
        return spec

    return _spec()


def wrapper_stacks(motor, act):
    names = SYSTEM_STATES[motor]
    cur = [n for n in names if n.startswith("i")]
    opts = [
        st.fixed_dictionaries(dict(kind=st.just("dead"), steps=st.integers(1, 4))),
        st.fixed_dictionaries(
            dict(
                kind=st.just("noise"),
                states=st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True),
                kw=st.just(dict(loc=0.0, scale=0.01)),
            )
        ),
        st.fixed_dictionaries(
            dict(
                kind=st.just("sum"),
                currents=st.lists(st.sampled_from(cur), min_size=1, max_size=3, unique=True),
                limit=st.sampled_from(["max", "sum"]),
            )
        ),
    ]
    if motor not in DC:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("cossin"), remove=st.booleans())))
    if motor == "SCIM":
        opts.append(st.fixed_dictionaries(dict(kind=st.just("flux"))))
    return st.lists(st.one_of(opts), min_size=1, max_size=3, unique_by=lambda d: d["kind"]).filter(_stack_ok)


def _stack_ok(stack):
    """No wrapper refers to the angle after an earlier one has removed it."""
    removed = False
    for d in stack:
        if removed and d["kind"] in ("noise", "flux", "dq") and "epsilon" in d.get("states", ["epsilon"]):
            return False
        removed = removed or (d["kind"] == "cossin" and d["remove"])
    return True
