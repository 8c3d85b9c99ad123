"""C06: all ODE solvers integrate the given system equation to the requested time."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.linalg import expm

from gym_electric_motor.physical_systems import solvers as slv
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C06"
RULE = (
    "A case is an equation (linear system, driven oscillator, logistic growth, pendulum, parameter-dependent), a "
    "solver with its options and a history of set_initial_value / set_f_params / integrate calls. Non-trivial: at "
    "least two integrate calls with a state change, or a re-initialisation between integrations."
)


# ------------------------------------------------------------------------------------------------ equations
class Eq:
    """dimension n; f(t, y, *params); jac; flow(t0, y0, t1, params) the exact solution"""

    def __init__(self, d):
        self.d, self.kind = d, d["kind"]
        self.n = dict(lin=2, osc=2, logistic=1, pend=2, scalar=1)[self.kind]

    def f(self, t, y, *p):
        u = self._u(p)
        d = self.d
        if self.kind == "scalar":
            return np.array([d["lam"] * y[0] + u])
        if self.kind == "lin":
            return self.A() @ np.asarray(y) + np.array([0.0, u])
        if self.kind == "osc":  # harmonic oscillator driven by a time-dependent force
            w = d["w"]
            return np.array([y[1], -w * w * y[0] + u * math.cos(d["wd"] * t)])
        if self.kind == "logistic":
            return np.array([d["r"] * y[0] * (1 - y[0] / d["K"])])
        return np.array([y[1], -d["w"] ** 2 * math.sin(y[0]) - d["c"] * y[1] + u])

    def jac(self, t, y, *p):
        d = self.d
        if self.kind == "scalar":
            return np.array([[d["lam"]]])
        if self.kind == "lin":
            return self.A()
        if self.kind == "osc":
            return np.array([[0.0, 1.0], [-d["w"] ** 2, 0.0]])
        if self.kind == "logistic":
            return np.array([[d["r"] * (1 - 2 * y[0] / d["K"])]])
        return np.array([[0.0, 1.0], [-d["w"] ** 2 * math.cos(y[0]), -d["c"]]])

    @staticmethod
    def _u(p):
        # parameters are handed over as given: ([u],) for a single list or (u1, u2) for two of them
        if len(p) == 1:
            return float(p[0][0])
        return float(p[0]) - 0.5 * float(p[1])

    def A(self):
        d = self.d
        return np.array([[d["a"], d["b"]], [-d["b"], d["c"]]])

    def flow(self, t0, y0, t1, p):
        d, h, u = self.d, t1 - t0, self._u(p)
        y0 = np.asarray(y0, float)
        if self.kind == "scalar":
            lam = d["lam"]
            return np.array([y0[0] * math.exp(lam * h) + (u * math.expm1(lam * h) / lam if lam else u * h)])
        if self.kind == "lin":
            M = np.zeros((3, 3))
            M[:2, :2] = self.A()
            M[1, 2] = u
            return (expm(M * h) @ np.r_[y0, 1.0])[:2]
        if self.kind == "logistic":
            K, r = d["K"], d["r"]
            if y0[0] == 0:
                return np.zeros(1)
            q = math.exp(-r * h)
            return np.array([K / (1 + (K / y0[0] - 1) * q)])
        r = solve_ivp(self.f, [t0, t1], y0, args=p, method="DOP853", rtol=1e-12, atol=1e-13)
        return r.y[:, -1]


def _euler(eq, t0, y0, t1, p, n):
    y, t, h = np.asarray(y0, float), t0, (t1 - t0) / n
    for _ in range(n):
        y = y + h * np.asarray(eq.f(t, y, *p))
        t += h
    return y


def make(name, kw):
    if name == "euler":
        return slv.EulerSolver(**kw)
    if name.startswith("ode:"):
        return slv.ScipyOdeSolver(name[4:], **kw)
    if name.startswith("ivp:"):
        return slv.ScipySolveIvpSolver(method=name[4:], **kw)
    if name == "ode_default":
        return slv.ScipyOdeSolver()
    if name == "ivp_default":
        return slv.ScipySolveIvpSolver(**kw)
    return slv.ScipyOdeIntSolver(**kw)


# relative accuracy per call to be expected from the given options
def _tol(name, kw):
    if name in ("ode_default", "ode:dopri5", "ode:dop853", "ode:lsoda", "ode:vode"):
        return 100 * kw.get("rtol", 1e-6)
    if name == "odeint":
        return 100 * kw.get("rtol", 1.5e-8) + 1e-6
    return 100 * kw.get("rtol", 1e-3)


def run_history(case):
    eq, name, kw = Eq(case["eq"]), case["solver"][0], dict(case["solver"][1])
    s = make(name, dict(kw))
    s.set_system_equation(eq.f, eq.jac if case["jac"] else None)
    t = y = None
    p = ([0.0],)
    n_int, reinit, moved = 0, 0, False
    err = 0.0
    tol1 = _tol(name, kw)
    s.set_f_params(*p) if not name.startswith("ode") else None
    scale = 1.0
    for op in case["ops"]:
        if op[0] == "init":
            y0 = np.array(op[1][: eq.n], float)
            if eq.kind == "logistic":
                y0 = np.abs(y0)
            keep = y0.copy()
            s.set_initial_value(y0, op[2])
            if name.startswith("ode") and p is not None:
                s.set_f_params(*p)
            t, y, err = op[2], keep, 0.0
            scale = 1.0 + np.max(np.abs(y))
            reinit += n_int > 0
            check(s.t == t and np.array_equal(np.asarray(s.y), keep), lambda: f"t={s.t}, y={s.y} after set_initial_value({keep}, {t})")
        elif op[0] == "par":
            p = ([op[1]],) if op[2] is None else (op[1], op[2])
            s.set_f_params(*p)
        else:
            if t is None:
                continue
            t1 = t + op[1]
            y_in = np.array(s.y, float)
            ret = s.integrate(t1)
            n_int += 1
            got = np.asarray(ret, float)
            check(got.shape == (eq.n,), lambda: f"{name}: integrate returned shape {got.shape}")
            check(np.array_equal(np.asarray(s.y, float), got), lambda: f"{name}: y={s.y} but integrate returned {got}")
            check(abs(s.t - t1) <= 1e-12 * max(1.0, abs(t1)), lambda: f"{name}: t={s.t} instead of {t1}")
            if name == "euler":
                ref = _euler(eq, t, y_in, t1, p, kw.get("nsteps", 1))
                y = got
                check(np.allclose(got, ref, rtol=1e-9, atol=1e-9 * scale), lambda: f"euler{kw}: {got} instead of {ref}")
            else:
                # exact continuation of the reported state: the error of this call alone
                ref = eq.flow(t, y_in, t1, p)
                peak = max(np.max(np.abs(ref)), np.max(np.abs(y_in)))
                scale = max(scale, peak)
                tol = tol1 * max(peak, 1e-3) + 100 * kw.get("atol", 1e-6 if name.startswith("ivp") else 1e-8)
                e = np.max(np.abs(got - ref))
                check(e <= tol, lambda: f"{name}{kw}: {got.tolist()} at t={t1} instead of {ref.tolist()} (from {y_in.tolist()} at {t})")
                y = got
            moved = moved or bool(np.any(got != y_in))
            scale = max(scale, np.max(np.abs(got)))
            t = t1
    return (n_int >= 2 and moved) or reinit > 0, [name, eq.kind]


def run_split(case):
    """One call over an interval equals many short calls (accurate settings) and agrees with the other solvers."""
    eq = Eq(case["eq"])
    name, kw = case["solver"]
    kw = dict(kw)
    y0 = np.array(case["y0"][: eq.n], float)
    if eq.kind == "logistic":
        y0 = np.abs(y0)
    p, t0, T = ([case["u"]],), case["t0"], case["T"]
    ts = sorted({t0 + T * c for c in case["cuts"] if 0 < c < 1} | {t0 + T})
    res = []
    for grid in ([t0 + T], ts):
        s = make(name, dict(kw))
        s.set_system_equation(eq.f, eq.jac if case["jac"] else None)
        s.set_initial_value(y0.copy(), t0)
        s.set_f_params(*p)
        for t in grid:
            y = s.integrate(t)
        res.append(np.array(y, float))
    ref = eq.flow(t0, y0, t0 + T, p)
    scale = max(np.max(np.abs(ref)), np.max(np.abs(y0)), 1.0)
    d = np.max(np.abs(res[0] - res[1])) / scale
    check(d < 1e-4, lambda: f"{name}{kw}: {res[0]} in one call, {res[1]} in {len(ts)} calls, exact {ref}")
    e = np.max(np.abs(res[0] - ref)) / scale
    check(e < 1e-4, lambda: f"{name}{kw}: {res[0]} instead of {ref}")
    return len(ts) > 1 and bool(np.any(ref != y0)), [name, eq.kind]


def run_forget(case):
    """Setting a new initial value forgets the previous integration: same as a new solver."""
    eq = Eq(case["eq"])
    name, kw = case["solver"]
    outs = []
    for pre in (case["pre"], []):
        s = make(name, dict(kw))
        s.set_system_equation(eq.f, eq.jac if case["jac"] else None)
        for y0, dts in pre:
            s.set_initial_value(np.abs(np.array(y0[: eq.n], float)), 0.0)
            s.set_f_params([case["u2"]])
            t = 0.0
            for dt in dts:
                t += dt
                s.integrate(t)
        s.set_initial_value(np.abs(np.array(case["y0"][: eq.n], float)), 0.0)
        s.set_f_params([case["u"]])
        out, t = [], 0.0
        for dt in case["dts"]:
            t += dt
            out.append(np.array(s.integrate(t), float))
        outs.append(np.array(out))
    check(
        np.array_equal(outs[0], outs[1]),
        lambda: f"{name}{kw}: {outs[0].tolist()} after an earlier integration, {outs[1].tolist()} with a new solver",
    )
    return len(case["pre"]) > 0, [name, eq.kind]


def run_drive(case):
    """A drive simulated with different accurate solvers follows the same trajectory."""
    outs = []
    for s in case["solvers"]:
        env = g.build(dict(case["spec"], constraints=[]), ode_solver=_ACC[s]())
        (x, r), _ = env.reset(seed=1)
        out = [x.copy()]
        for a in g.expand(env.action_space, case["plan"]):
            (x, r), *_ = env.step(a)
            out.append(x.copy())
        outs.append(np.array(out))
    names = list(env.physical_system.state_names)
    a, b = outs
    if "epsilon" in names:
        k = names.index("epsilon")
        d = np.abs(np.mod(a[:, k] - b[:, k] + 1, 2) - 1)
        check(d.max() < 1e-4, lambda: f"epsilon differs by {d.max()} between {case['solvers']}")
        a, b = np.delete(a, k, 1), np.delete(b, k, 1)
        names.remove("epsilon")
    # the field-oriented frame of an induction machine is ill-defined as long as there is hardly any flux
    keep = [i for i, n in enumerate(names) if not (n[-2:] in ("sd", "sq", "rd", "rq") and "i_sa" in names)]
    a, b = a[:, keep], b[:, keep]
    scale = max(np.max(np.abs(b)), 1e-2)
    if not scale < 1e3:
        return False, ["diverging"]
    d = np.max(np.abs(a - b)) / scale
    check(d < 3e-4, lambda: f"the trajectories of {case['solvers']} differ by {d}")
    return len(a) > 3 and case["solvers"][0] != case["solvers"][1], [g.split(case["spec"]["id"])[2]]


_ACC = {
    "dopri5": lambda: slv.ScipyOdeSolver("dopri5"),
    "dop853": lambda: slv.ScipyOdeSolver("dop853"),
    "lsoda": lambda: slv.ScipyOdeSolver("lsoda", rtol=1e-7, atol=1e-9),
    "vode": lambda: slv.ScipyOdeSolver("vode", method="bdf", rtol=1e-8, atol=1e-9),
    "RK45": lambda: slv.ScipySolveIvpSolver(method="RK45", rtol=1e-7, atol=1e-9),
    "DOP853": lambda: slv.ScipySolveIvpSolver(method="DOP853", rtol=1e-7, atol=1e-9),
    "Radau": lambda: slv.ScipySolveIvpSolver(method="Radau", rtol=1e-7, atol=1e-9),
    "LSODA": lambda: slv.ScipySolveIvpSolver(method="LSODA", rtol=1e-7, atol=1e-9),
    "odeint": lambda: slv.ScipyOdeIntSolver(rtol=1e-7, atol=1e-9),
    "euler": lambda: slv.EulerSolver(nsteps=400),
}

# ------------------------------------------------------------------------------------------------ strategies
_v = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), g.f(-10, 10))
_eqs = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("scalar"), lam=st.one_of(st.just(0.0), g.f(-20, 1)))),
    st.fixed_dictionaries(dict(kind=st.just("lin"), a=g.f(-10, 0.5), b=g.f(-10, 10), c=g.f(-10, 0.5))),
    st.fixed_dictionaries(dict(kind=st.just("osc"), w=g.f(0.5, 10), wd=g.f(0, 20))),
    st.fixed_dictionaries(dict(kind=st.just("logistic"), r=g.f(0.1, 5), K=g.f(0.5, 20))),
    st.fixed_dictionaries(dict(kind=st.just("pend"), w=g.f(0.5, 6), c=g.f(0, 2))),
)
_solvers = st.one_of(
    st.integers(1, 12).map(lambda n: ["euler", dict(nsteps=n)]),
    st.just(["euler", {}]),
    st.sampled_from(
        [
            ["ode_default", {}], ["ode:dopri5", {}], ["ode:dopri5", dict(rtol=1e-8, atol=1e-10)], ["ode:dop853", {}],
            ["ode:lsoda", {}], ["ode:vode", dict(method="adams", rtol=1e-6, atol=1e-9)],
            ["ode:vode", dict(method="bdf", rtol=1e-7, atol=1e-9)], ["ivp_default", {}],
            ["ivp_default", dict(rtol=1e-8, atol=1e-10)], ["ivp:RK45", {}], ["ivp:RK45", dict(rtol=1e-7, atol=1e-9)],
            ["ivp:RK23", dict(rtol=1e-6, atol=1e-8)], ["ivp:DOP853", dict(rtol=1e-8, atol=1e-10)],
            ["ivp:Radau", dict(rtol=1e-6, atol=1e-8)], ["ivp:BDF", dict(rtol=1e-7, atol=1e-9)],
            ["ivp:LSODA", dict(rtol=1e-7, atol=1e-9)], ["odeint", {}], ["odeint", dict(rtol=1e-7, atol=1e-9)],
        ]
    ),
)  # fmt: skip
_acc = _solvers.filter(lambda s: s[0] not in ("euler",) and not s[0].startswith("ivp") or "rtol" in s[1])
_dt = st.one_of(st.sampled_from([1e-5, 1e-4, 1e-3, 0.1]), g.log(1e-5, 1.0))
_init = st.tuples(st.just("init"), st.lists(_v, min_size=2, max_size=2), st.one_of(st.just(0.0), g.f(-2, 5))).map(list)
_ops = st.lists(
    st.one_of(
        _init,
        st.tuples(st.just("par"), g.f(-20, 20), st.one_of(st.none(), g.f(-5, 5))).map(list),
        st.tuples(st.just("int"), _dt).map(list),
        st.tuples(st.just("int"), _dt).map(list),
        st.tuples(st.just("int"), _dt).map(list),
    ),
    min_size=2, max_size=10,
)  # fmt: skip


@st.composite
def _drive(draw):
    spec = draw(g.specs(features=("mp", "minit"), p_feature=0.4))
    if spec.get("minit", {}).get("random_init"):
        spec.pop("minit")
    spec["load"] = dict(kind="const", omega=draw(g.f(0, 120)))
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4]))
    return dict(
        spec=spec, solvers=list(draw(st.permutations(sorted(_ACC))))[:2], plan=draw(g.segments(4, 4)),
    )


SUBS = [
    Sub(
        "history",
        st.fixed_dictionaries(
            dict(eq=_eqs, solver=_solvers, jac=st.booleans(), first=_init, ops=_ops)
        ).map(lambda d: dict(eq=d["eq"], solver=d["solver"], jac=d["jac"], ops=[d["first"], ["par", 0.0, None]] + d["ops"])),
        run_history, 4000, 120000, shards=8,
    ),
    Sub(
        "split",
        st.fixed_dictionaries(
            dict(
                eq=_eqs, solver=_acc, jac=st.booleans(), y0=st.lists(_v, min_size=2, max_size=2), u=g.f(-20, 20),
                t0=st.one_of(st.just(0.0), g.f(-2, 5)), T=_dt, cuts=st.lists(g.f(0.01, 0.99), min_size=1, max_size=8),
            )
        ),
        run_split, 800, 30000, shards=4,
    ),
    Sub(
        "forget",
        st.fixed_dictionaries(
            dict(
                eq=_eqs, solver=_solvers, jac=st.booleans(), y0=st.lists(_v, min_size=2, max_size=2),
                dts=st.lists(_dt, min_size=1, max_size=4), u=g.f(-20, 20), u2=g.f(-20, 20),
                pre=st.lists(
                    st.tuples(st.lists(_v, min_size=2, max_size=2), st.lists(_dt, min_size=0, max_size=4)).map(list),
                    min_size=1, max_size=3,
                ),
            )
        ),
        run_forget, 1200, 40000, shards=4,
    ),
    Sub("drive", _drive(), run_drive, 250, 8000, shards=8),
]  # fmt: skip
