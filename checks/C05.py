"""C05: provided Jacobians are the derivatives of the provided equations."""
import numpy as np
from hypothesis import strategies as st

import gym_electric_motor as gem
from gym_electric_motor import physical_systems as ps
from gym_electric_motor.physical_systems import solvers as slv
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C05"
RULE = (
    "motor / load: random parameters, state, speed, voltage, torque; every Jacobian entry is compared with the central "
    "difference of the equation (exact for the piecewise quadratic equations). system: the Jacobian handed to the ODE "
    "solver of a drive, at the states visited in a rollout and at random states. traj: implicit solvers with and "
    "without Jacobian over an action plan. Non-trivial: state and speed non-zero (motor, load, system), or at least 3 "
    "compared steps with a current (traj)."
)


def fd(fun, z, h):
    """Central differences: d fun / d z, exact for quadratic functions up to rounding; returns (J, error bound)."""
    z = np.asarray(z, float)
    cols, errs = [], []
    for k in range(len(z)):
        zp, zm = z.copy(), z.copy()
        zp[k] += h[k]
        zm[k] -= h[k]
        fp, fm = np.asarray(fun(zp), float).ravel(), np.asarray(fun(zm), float).ravel()
        cols.append((fp - fm) / (zp[k] - zm[k]))
        errs.append(1e-12 * (np.abs(fp) + np.abs(fm)) / (2 * h[k]))
    return np.array(cols).T, np.array(errs).T


def _cmp(what, got, ref, err, row_scale):
    got = np.asarray(got, float)
    check(got.shape == ref.shape, lambda: f"{what}: shape {got.shape} instead of {ref.shape}")
    tol = 1e-6 * np.abs(ref) + 1e3 * err + 1e-9 * row_scale
    bad = np.argwhere(~(np.abs(got - ref) <= tol))
    check(
        len(bad) == 0,
        lambda: f"{what}: entry {bad[0].tolist()} is {got[tuple(bad[0])]}, the derivative is {ref[tuple(bad[0])]}",
    )


def _n_u(motor):
    return {"PermExDc": 1, "SeriesDc": 1, "ShuntDc": 1, "ExtExDc": 2, "EESM": 3, "DFIM": 4}.get(motor, 2)


def _n_x(motor):
    return {"PermExDc": 1, "SeriesDc": 1, "ShuntDc": 2, "ExtExDc": 2, "EESM": 4, "SCIM": 5, "DFIM": 5}.get(motor, 3)


def run_motor(case):
    motor = case["motor"]
    m = g.MOTOR_CLS[motor](motor_parameter=g.mp_from(motor, case["mp"]))
    check(m.HAS_JACOBIAN, f"{motor} offers no Jacobian")
    n = _n_x(motor)
    x, w = np.array(case["x"][:n], float), float(case["w"])
    if motor in g.IND:
        x[2:4] /= 100.0
    u = np.array(case["u"][: _n_u(motor)], float)
    if motor == "DFIM":
        u = u.reshape(2, 2)
    jac, over_w, t_over_x = m.electrical_jacobian(x, u, w)
    jac, over_w, t_over_x = np.array(jac, float), np.array(over_w, float), np.array(t_over_x, float)
    h = np.maximum(np.abs(x), 1.0) * 0.5
    if motor in g.IND:
        h[2:4] = np.maximum(np.abs(x[2:4]), 0.01) * 0.5
    ref, err = fd(lambda z: np.array(m.electrical_ode(z, u, w), float), x, h)
    row = np.zeros_like(ref)
    _cmp(f"{motor} electrical_jacobian (states)", jac, ref, err, row)
    ref, err = fd(lambda z: np.array(m.electrical_ode(x, u, z[0]), float), [w], [max(abs(w), 1.0) * 0.5])
    _cmp(f"{motor} electrical_jacobian (omega)", over_w.reshape(-1, 1), ref, err, 1 + np.max(np.abs(x)))
    ref, err = fd(lambda z: np.atleast_1d(m.torque(z)), x, h)
    _cmp(f"{motor} electrical_jacobian (torque)", t_over_x.reshape(1, -1), ref, err, 1e-3 * (1 + np.max(np.abs(x))))
    return bool(w and np.all(x[: max(1, n - 1)] != 0)), [motor]


def _mk_load(d):
    if d["kind"] == "const":
        return ps.ConstantSpeedLoad(omega_fixed=d["w0"])
    return ps.PolynomialStaticLoad(load_parameter=dict(a=d["a"], b=d["b"], c=d["c"], j_load=d["j"]))


def run_load(case):
    d = case["load"]
    load = _mk_load(d)
    load.set_j_rotor(case["jr"])
    check(load.HAS_JACOBIAN, "no jacobian")
    w, t = float(case["w"]), float(case["t"])
    kink = 0.0
    if d["kind"] == "static":
        j = d["j"] + case["jr"]
        kink = d["a"] / j * load.tau_decay
        if case["rel"] is not None:
            w = case["rel"] * kink  # around the border of the smoothed region
    dist = min(abs(abs(w) - kink), abs(w)) if d["kind"] == "static" else 1.0
    if dist < 1e-9 * max(1.0, abs(w)):
        return False, ["kink"]
    h = min(0.5 * dist, 0.5 * max(abs(w), 1.0))
    jl, jt = load.mechanical_jacobian(0.0, np.array([w]), t)
    jl, jt = np.array(jl, float), np.array(jt, float)
    fun = lambda z: np.array(load.mechanical_ode(0.0, np.array([z[0]]), z[1]), float)
    ref, err = fd(fun, [w, t], [h, max(abs(t), 1.0)])
    # cancellation of the constant torque over a small region
    _cmp("mechanical_jacobian (states)", jl, ref[:, :1], err[:, :1], 0)
    _cmp("mechanical_jacobian (torque)", jt.reshape(-1, 1), ref[:, 1:], err[:, 1:], 0)
    return bool(w), [d["kind"], "inner" if abs(w) < kink else "outer"]


class Recorder(slv.EulerSolver):
    """An Euler solver (public solver interface) that remembers system equation, Jacobian and parameters."""

    def set_system_equation(self, system_equation, jac=None):
        super().set_system_equation(system_equation, jac)
        self.eq, self.jac, self.log = system_equation, jac, []

    def integrate(self, t):
        self.log.append((self.t, np.array(self.y, float), self._f_params))
        return super().integrate(t)


def run_system(case):
    spec = case["spec"]
    rec = Recorder()
    env = g.build(spec, ode_solver=rec)
    act, task, motor = g.split(spec["id"])
    has = spec["load"]["kind"] in ("const", "static")
    if not has or spec.get("jac") is False:
        check(rec.jac is None, "a Jacobian is used although the load has none or it is switched off")
        return False, ["none"]
    check(rec.jac is not None, "no Jacobian is handed to the solver")
    env.reset(seed=case["seed"])
    for a in g.expand(env.action_space, case["plan"]):
        _, _, term, _, _ = env.step(a)
        if term:
            env.reset()
    ld = env.physical_system.mechanical_load
    kink = spec["load"].get("a", 0.0) / ld.j_total * 1e-3 if spec["load"]["kind"] == "static" else None
    cnt = 0
    iw, n_mech = ld.OMEGA_IDX, len(ld.state_names)
    for t, y, prm in rec.log[:: max(1, len(rec.log) // 6)]:
        for f, w in [(None, None)] + [tuple(q) for q in case["probe"]]:
            z = y.copy()
            if f is not None:
                z = z * f
                z[iw] = w
            if not np.all(np.isfinite(z)) or np.max(np.abs(z)) > 1e6:
                continue
            if kink is not None:
                dist = min(abs(abs(z[iw]) - kink), abs(z[iw]))
                if dist < 1e-6:
                    z[iw] = 2 * kink + 1.0
                    dist = kink + 1.0
            else:
                dist = 1.0
            h = np.maximum(np.abs(z) * 0.5, 1e-2)
            h[iw] = min(0.5 * dist, max(0.5 * abs(z[iw]), 1.0))
            with np.errstate(all="ignore"):
                jac = np.array(rec.jac(t, z, *prm), float)
                ref, err = fd(lambda q: np.array(rec.eq(t, q, *prm), float), z, h)
            if not np.all(np.isfinite(ref)):
                continue
            _cmp(f"{motor} system Jacobian at {z.tolist()}", jac, ref, err, 1 + np.max(np.abs(z)))
            cnt += 1 if z[iw] and np.any(z[n_mech:]) else 0
    return cnt > 0, [motor, spec["load"]["kind"]]


_IMPLICIT = {
    "Radau": lambda: slv.ScipySolveIvpSolver(method="Radau", rtol=1e-7, atol=1e-9),
    "BDF": lambda: slv.ScipySolveIvpSolver(method="BDF", rtol=1e-8, atol=1e-10),
    "LSODA": lambda: slv.ScipySolveIvpSolver(method="LSODA", rtol=1e-7, atol=1e-9),
    "lsoda": lambda: slv.ScipyOdeSolver("lsoda", rtol=1e-7, atol=1e-9),
    "vode": lambda: slv.ScipyOdeSolver("vode", method="bdf", rtol=1e-8, atol=1e-10),
    "odeint": lambda: slv.ScipyOdeIntSolver(rtol=1e-7, atol=1e-9),
}


def run_traj(case):
    spec = dict(case["spec"], constraints=[])
    outs = []
    for jac in (True, False):
        env = g.build(dict(spec, jac=jac), ode_solver=_IMPLICIT[case["solver"]]())
        (s, r), _ = env.reset(seed=3)
        out = [s.copy()]
        for a in g.expand(env.action_space, case["plan"]):
            (s, r), *_ = env.step(a)
            out.append(s.copy())
        outs.append(np.array(out))
    a, b = outs
    names = list(env.physical_system.state_names)
    if "epsilon" in names:  # compared on the circle
        k = names.index("epsilon")
        d = np.abs(np.mod(a[:, k] - b[:, k] + 1, 2) - 1)
        check(d.max() < 1e-4, lambda: f"epsilon differs by {d.max()} with and without Jacobian")
        a, b = np.delete(a, k, 1), np.delete(b, k, 1)
        names.remove("epsilon")
    # the field-oriented frame of an induction machine is ill-defined as long as there is hardly any flux
    keep = [i for i, n in enumerate(names) if not (n[-2:] in ("sd", "sq", "rd", "rq") and "i_sa" in names)]
    a, b = a[:, keep], b[:, keep]
    scale = np.maximum(np.max(np.abs(b)), 1e-2)
    if not np.isfinite(scale) or scale > 1e4:
        return False, ["diverging"]
    d = np.max(np.abs(a - b)) / scale
    check(d < 2e-4, lambda: f"trajectories with and without Jacobian differ by {d} ({case['solver']})")
    return len(a) > 3, [g.split(spec["id"])[2], case["solver"]]


_num = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 100.0]), g.f(-400, 400), g.f(-5, 5))
_load = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("const"), w0=g.f(-100, 100))),
    st.fixed_dictionaries(
        dict(kind=st.just("static"), a=g.f(0, 2), b=g.f(0, 1), c=g.f(0, 0.1), j=g.log(1e-4, 10))
    ),
    st.fixed_dictionaries(
        dict(kind=st.just("static"), a=g.f(0, 2), b=g.f(0, 1), c=g.f(0, 0.1), j=g.log(1e-4, 10))
    ),
)
_sys_load = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("const"), omega=g.f(0, 150))),
    st.fixed_dictionaries(dict(kind=st.just("static"), a=g.f(0, 1), b=g.f(0, 0.1), c=g.f(0, 0.01), j=g.log(1e-3, 1e-1))),
    st.fixed_dictionaries(dict(kind=st.just("static"), a=g.f(0, 1), b=g.f(0, 0.1), c=g.f(0, 0.01), j=g.log(1e-3, 1e-1))),
    st.fixed_dictionaries(dict(kind=st.just("ext"), amp=g.f(0, 120), f=g.f(0, 50))),
)


@st.composite
def _sys_case(draw):
    spec = draw(g.specs(features=("mp", "supply"), p_feature=0.6))
    spec["load"] = draw(_sys_load)
    if draw(st.integers(0, 2)) == 0:
        spec["load"] = dict(spec["load"], pos=draw(st.sampled_from(["front", "back"])), pos0=draw(g.f(-50, 50)))
    spec["jac"] = draw(st.sampled_from([None, None, True, True, False]))
    probe = st.tuples(g.f(-3, 3), st.one_of(g.f(-200, 200), g.f(-0.1, 0.1))).map(list)
    return dict(spec=spec, plan=draw(g.segments(4, 6)), seed=draw(st.integers(0, 9)), probe=draw(st.lists(probe, max_size=3)))


@st.composite
def _traj_case(draw):
    spec = draw(g.specs(features=("mp",), p_feature=0.5))
    spec["load"] = draw(_sys_load.filter(lambda d: d["kind"] == "const" or d.get("a", 1) is not None).filter(lambda d: d["kind"] != "ext"))
    if spec["load"]["kind"] == "static":
        spec["load"] = dict(spec["load"], a=0.0)
    if draw(st.integers(0, 3)) == 0:
        spec["load"] = dict(spec["load"], pos=draw(st.sampled_from(["front", "back"])))
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4]))
    return dict(spec=spec, solver=draw(st.sampled_from(sorted(_IMPLICIT))), plan=draw(g.segments(4, 4)))


SUBS = [
    Sub(
        "motor",
        st.sampled_from(g.MOTORS).flatmap(
            lambda m: st.fixed_dictionaries(
                dict(
                    motor=st.just(m), mp=g.mp_scale(m), x=st.lists(_num, min_size=5, max_size=5),
                    u=st.lists(_num, min_size=4, max_size=4), w=_num,
                )
            )
        ),
        run_motor, 6000, 200000, shards=4,
    ),
    Sub(
        "load",
        st.fixed_dictionaries(
            dict(load=_load, jr=g.log(1e-4, 1), w=_num, t=_num, rel=st.one_of(st.none(), g.f(-2, 2)))
        ),
        run_load, 3000, 100000, shards=2,
    ),
    Sub("system", _sys_case(), run_system, 800, 20000, shards=8),
    Sub("traj", _traj_case(), run_traj, 300, 8000, shards=8),
]  # fmt: skip
