"""C10: mechanical loads follow their stated load characteristic."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from gym_electric_motor import physical_systems as ps
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, Violation, check

PROPERTY = "C10"
RULE = (
    "static: load parameters, rotor inertia, speeds and torques, compared with the documented polynomial; non-trivial if "
    "a speed is non-zero and a coefficient positive. coast: the load alone under a torque below its static friction. "
    "drive: complete drives with each load, co-simulated; non-trivial if at least 3 steps ran. ou/random: seeded "
    "histories of random loads."
)
TAU_DECAY = 1e-3  # documented smoothing time constant of the static friction around standstill


def load_torque(p, j, w):
    """T_L = sign(w) (c w^2 + b |w| + a); the constant part is replaced by a line around standstill"""
    s = math.copysign(1.0, w) if w else 0.0
    a = p["a"] if abs(w) > p["a"] * TAU_DECAY / j else j / TAU_DECAY * abs(w)
    return s * (p["c"] * w * w + p["b"] * abs(w) + a)


def _static(case):
    given = {k: v for k, v in case["p"].items()}
    keys = list(given)[:: -1 if case["rev"] else 1]
    given = {k: given[k] for k in keys}
    ld = ps.PolynomialStaticLoad(load_parameter=given) if given or case["rev"] else ps.PolynomialStaticLoad()
    p = dict(a=0.0, b=0.0, c=0.0, j_load=1e-5)
    p.update(given)
    return ld, p


def run_static(case):
    ld, p = _static(case)
    check(dict(ld.load_parameter) == p, lambda: f"load parameters {ld.load_parameter} instead of {p}")
    j = p["j_load"]
    check(math.isclose(ld.j_total, j, rel_tol=1e-12), lambda: f"j_total {ld.j_total} before the rotor is attached, instead of {j}")
    if case["rotor"] is not None:
        ld.set_j_rotor(case["rotor"])
        j += case["rotor"]
        check(math.isclose(ld.j_total, j, rel_tol=1e-12), lambda: f"j_total {ld.j_total} instead of {j}")
    prev, nz = None, False
    for w, t in sorted(case["points"]):
        d = np.asarray(ld.mechanical_ode(case["t"], np.array([w]), t), float)
        check(d.shape == (1,), lambda: f"speed derivative has shape {d.shape}")
        tl = load_torque(p, j, w)
        ref = (t - tl) / j
        check(
            abs(d[0] - ref) <= 1e-9 * (abs(t) + abs(tl)) / j + 1e-12,
            lambda: f"domega/dt = {d[0]} instead of {ref} = ({t} - {tl}) / {j}; parameters {p}, omega {w}",
        )
        # the load alone
        lt = -j * float(np.asarray(ld.mechanical_ode(0.0, np.array([w]), 0.0))[0])
        check(lt * w >= -1e-12, lambda: f"load torque {lt} drives the axis at omega={w}, parameters {p}")
        full = p["c"] * w * w + p["b"] * abs(w) + p["a"]
        check(abs(lt) <= full * (1 + 1e-9) + 1e-12, lambda: f"load torque {lt} beyond the characteristic {full} at {w}")
        if prev is not None and w > prev[0]:
            check(lt >= prev[1] - 1e-9 * (abs(lt) + abs(prev[1])), lambda: f"load torque not monotone: {prev} and {(w, lt)}")
        neg = -j * float(np.asarray(ld.mechanical_ode(0.0, np.array([-w]), 0.0))[0])
        check(abs(neg + lt) <= 1e-9 * abs(lt) + 1e-12, lambda: f"load torque is not odd: {lt} at {w}, {neg} at {-w}")
        prev = (w, lt)
        nz = nz or bool(w)
    return nz and any(p[k] > 0 for k in "abc"), ["rotor" if case["rotor"] else "no_rotor"]


def run_coast(case):
    """T_motor below the static friction: a moving axis only slows down, a resting one stays at rest."""
    ld, p = _static(case)
    j = p["j_load"] + (case["rotor"] or 0.0)
    ld.set_j_rotor(case["rotor"] or 0.0)
    a, w0 = p["a"], case["w0"]
    T = case["frac"] * a
    rest = a * TAU_DECAY / j  # the creep speed of the smoothed friction
    f = lambda t, y: np.asarray(ld.mechanical_ode(t, y, T * math.cos(case["f"] * t)), float)
    sol = solve_ivp(f, (0.0, case["span"]), [w0], method="LSODA", rtol=1e-8, atol=1e-12, max_step=case["span"] / 20)
    w = sol.y[0]
    tol = 1e-6 * (abs(w0) + rest + 1e-9)
    check(np.isfinite(w).all(), "speed not finite")
    if abs(w0) <= rest:
        check(np.max(np.abs(w)) <= rest * abs(case["frac"]) + abs(w0) + tol, lambda: f"resting axis starts moving: {np.max(np.abs(w))} > {rest}, friction {a}, torque {T}")
    else:
        out = np.abs(w) > rest + tol
        n = int(np.argmin(out)) if not out.all() else len(w)
        check((np.diff(np.abs(w[:n])) <= tol).all(), lambda: f"coasting axis accelerates against friction {a} with torque {T}")
        check((w[:n] * w0 > 0).all(), "coasting axis changes direction")
        check((np.abs(w[n:]) <= rest + 2 * tol).all(), lambda: f"axis leaves the standstill again: {w[n:]}")
    return a > 0, ["rest" if abs(w0) <= rest else "moving"]


# ------------------------------------------------------------------------------------------------ drives
REPORTED = {
    "PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"], "PMSM": ["i_sd", "i_sq"],
    "SynRM": ["i_sd", "i_sq"], "EESM": ["i_sd", "i_sq", "i_e"],
}  # fmt: skip


def profile(d):
    """speed profile, bound of its second derivative"""
    k, w = d["shape"], 2 * math.pi * d["f"]
    if k == "const":
        return (lambda t, **kw: d["amp"]), {}, 0.0
    if k == "ramp":
        return (lambda t, slope, **kw: d["amp"] + slope * t), dict(slope=d["slope"]), 0.0
    if k == "sine":
        return (lambda t, amp, bias: bias + amp * math.sin(w * t)), dict(amp=d["amp"], bias=d["bias"]), abs(d["amp"]) * w * w
    if k == "cos":
        return (lambda t: d["amp"] * np.cos(w * t)), None, abs(d["amp"]) * w * w
    raise ValueError(k)


def run_drive(case):
    spec = dict(case["spec"], constraints=[])
    act, task, motor = g.split(spec["id"])
    spec["mp"] = dict(spec.get("mp", {}), j_rotor=spec.get("mp", {}).get("j_rotor", 0))
    mp = g.mp_from(motor, spec["mp"])
    d, tau = case["load"], spec["tau"]
    k = d["kind"]
    mod = M.Machine(motor, mp)
    if k == "static":
        p = dict(a=d["a"], b=d["b"], c=d["c"], j_load=d["j"])
        ld = ps.PolynomialStaticLoad(load_parameter=p, load_initializer=dict(states=dict(omega=d["w0"])))
        j = mp["j_rotor"] + d["j"]
        t_load = lambda w: load_torque(p, j, w)
    elif k == "const":
        if d["by"] == "arg":
            ld = ps.ConstantSpeedLoad(omega_fixed=d["w0"])
        elif d["by"] == "init":
            ld = ps.ConstantSpeedLoad(load_initializer=dict(states=dict(omega=d["w0"])))
        elif d["by"] == "both":  # one of them has to decide, for the drive and for the description
            ld = ps.ConstantSpeedLoad(omega_fixed=d["w0"], load_initializer=dict(states=dict(omega=d["w1"])))
        else:
            ld = ps.ConstantSpeedLoad(load_initializer=dict(states=dict(omega=0.0), random_init="uniform", interval=[[10.0, 20.0]]))
        j, t_load = 1.0, None
    else:
        prof, kw, dd = profile(d)
        ld = ps.ExternalSpeedLoad(prof, tau=d["tau_rel"] * tau, **({"speed_profile_kwargs": kw} if kw is not None else {}))
    env = g.build(spec, load=ld)
    psys = env.physical_system
    names, lim = list(psys.state_names), np.asarray(psys.limits)
    usup = psys.supply.u_nominal
    steps, seen = 0, []
    for ep in range(2):
        (s, r), _ = env.reset(seed=case["seed"] if ep == 0 else None)
        ph = dict(zip(names, np.asarray(s) * lim))
        w = ph["omega"]
        if k == "static":
            check(abs(w - d["w0"]) <= 1e-9 * (1 + abs(w)), lambda: f"initial speed {w} instead of {d['w0']}")
        elif k == "const":
            if d["by"] != "random":
                fx = ld.omega_fixed
                check(abs(w - fx) <= 1e-9 * (1 + abs(w)), lambda: f"omega_fixed is {fx}, but the speed is {w} ({d})")
            if d["by"] == "random":
                check(10 - 1e-9 <= w <= 20 + 1e-9, lambda: f"initial speed {w} outside of the requested interval 10..20")
                seen.append(w)
            elif d["by"] == "both":
                check(min(abs(w - d["w0"]), abs(w - d["w1"])) <= 1e-9 * (1 + abs(w)), lambda: f"initial speed {w}, neither {d['w0']} nor {d['w1']}")
            else:
                check(abs(w - d["w0"]) <= 1e-9 * (1 + abs(w)), lambda: f"initial speed {w} instead of {d['w0']}")
        else:
            w0 = float(prof(t=0.0, **(kw or {})))
            check(abs(w - w0) <= 1e-9 * (1 + abs(w0)), lambda: f"initial speed {w} instead of the profile's {w0}")
        if motor in g.IND:
            x = np.zeros(5)
            x[4] = ph["epsilon"]
        else:
            x = np.array([ph[n] for n in REPORTED[motor]] + ([ph["epsilon"]] if motor in g.SYNC else []))
        w_first, n, sw, si = w, 0, abs(w) + 1e-2, 1e-3
        for a_ in g.expand(env.action_space, case["plan"]):
            (s, r), *_ = env.step(a_)
            n += 1
            ph = dict(zip(names, np.asarray(s) * lim))
            if not np.isfinite(s).all() or np.max(np.abs(s)) > 1e4:
                break
            if k == "const":
                check(abs(ph["omega"] - w_first) <= 1e-9 * (1 + abs(w_first)), lambda: f"constant speed changes from {w_first} to {ph['omega']} in step {n}")
                continue
            if k == "ext":
                ref = float(prof(t=n * tau, **(kw or {})))
                tl = d["tau_rel"] * tau
                tol = 1.5 * tl * tl * dd + 1e-5 * (abs(ref) + abs(w_first)) + 1e-9
                if spec["solver"] == "euler" and d["tau_rel"] == 1 and not spec.get("lock"):
                    tol = 1e-9 * (1 + abs(ref) + abs(w_first))
                check(abs(ph["omega"] - ref) <= tol, lambda: f"speed {ph['omega']} at t={n * tau} instead of the profile's {ref} (+-{tol})")
                continue
            u_out = usup * np.array(M.ideal_output(act, motor, a_))
            x, w = mod.rk4(x, M.motor_input(mod, x, u_out), w, tau, 24, j, t_load)
            si, sw = max(si, float(np.max(np.abs(x[:2])))), max(sw, abs(w))
            if not np.isfinite(si) or si > 1e7:
                break
            tol = 2e-4 * (1 + 0.05 * n)
            check(
                abs(ph["omega"] - w) <= tol * sw + 1e-6 * d["a"] * TAU_DECAY / j,
                lambda: f"{motor} step {n}: omega {ph['omega']} instead of {w} with the load {p}, total inertia {j}",
            )
        steps += n
    if len(seen) == 2:
        check(seen[0] != seen[1], "the random speed is not drawn anew at a reset")
    return steps >= 3, [k, motor]


# ------------------------------------------------------------------------------------------------ random load
def _ou(case):
    ld = ps.OrnsteinUhlenbeckLoad(
        mu=case["mu"], sigma=case["sigma"], theta=case["theta"], tau=case["tau"], omega_range=tuple(case["range"])
    )
    ld.seed(np.random.SeedSequence(case["seed"]))
    return ld


def run_ou(case):
    lo, hi = case["range"]
    mu, tau = case["mu"], case["tau"]
    hist = []
    for rep in range(2):
        ld, out = _ou(case), []
        for ep in range(2):
            w = float(np.squeeze(ld.reset(state_space=None, state_positions=None, nominal_state=None)))
            check(lo <= w <= hi, lambda: f"initial speed {w} outside of {case['range']}")
            out.append(w)
            for k in range(case["n"]):
                # the torque has no influence
                d = float(np.squeeze(ld.mechanical_ode(k * tau, np.array([w]), 0.0 if rep else 17.0 * (-1) ** k)))
                new = w + tau * d
                check(lo - 1e-9 <= new <= hi + 1e-9, lambda: f"speed leaves {case['range']}: {new}")
                if case["sigma"] == 0:
                    check(d * (mu - w) >= 0, lambda: f"without noise the speed {w} drifts with {d}, away from the mean {mu}")
                    if case["theta"] > 0 and lo < mu < hi and abs(mu - w) > 1e-6:
                        check(d != 0, lambda: f"no drift towards the mean {mu} from {w}")
                w = new
                out.append(w)
        hist.append(out)
    check(hist[0] == hist[1], "the random speed depends on the torque (or is not reproducible from the seed)")
    if case["sigma"] > 0:
        check(len(set(hist[0])) > 3, "the random speed is constant")
    return True, ["sigma0" if case["sigma"] == 0 else "noise"]


def run_ou_law(case):
    """Euler-Maruyama: the speed change over one step is theta (mu - w) tau + sigma sqrt(tau) N"""
    ld = _ou(dict(case, range=[-1e6, 1e6]))
    ld.reset(state_space=None, state_positions=None, nominal_state=None)
    mu, tau, th = case["mu"], case["tau"], case["theta"]
    w = mu - 40.0
    inc = np.array([float(np.squeeze(ld.mechanical_ode(0.0, np.array([w]), 0.0))) * tau for _ in range(400)])
    exp, sd = th * (mu - w) * tau, case["sigma"] * math.sqrt(tau)
    ok = abs(inc.mean() - exp) <= 6 * sd / 20 + 1e-9 * abs(exp) and (sd == 0 or 0.8 < inc.std() / sd < 1.25)
    if not ok:
        # the listed finding: the increment over tau is returned as a rate, so everything is smaller by the factor tau
        small = abs(inc.mean() - exp * tau) <= 6 * sd * tau / 20 + 1e-9 * abs(exp) * tau and 0.8 < inc.std() / (sd * tau) < 1.25
        check(small, f"Ornstein-Uhlenbeck speed change over tau={tau}: mean {inc.mean()}, deviation {inc.std()} instead of {exp}, {sd}")
        raise Violation(
            f"Ornstein-Uhlenbeck speed change over tau={tau}: mean {inc.mean()}, deviation {inc.std()} instead of {exp}, {sd}",
            "ou-increment-as-rate",
        )
    return True, ["law"]


_coef = lambda hi: st.one_of(st.just(0.0), g.f(0, hi), g.log(hi * 1e-5, hi))
_p = st.fixed_dictionaries({}, optional=dict(a=_coef(5.0), b=_coef(0.5), c=_coef(0.05), j_load=g.log(1e-5, 1.0)))
_w = st.one_of(st.just(0.0), g.f(-400, 400), g.f(-1, 1), g.log(1e-6, 1.0), g.log(1e-6, 1.0).map(lambda v: -v))
_T = st.one_of(st.just(0.0), g.f(-100, 100), g.f(-1, 1))
_static_case = st.fixed_dictionaries(
    dict(
        p=_p, rev=st.booleans(), rotor=st.one_of(st.none(), g.log(1e-4, 1.0)), t=g.f(0, 10),
        points=st.lists(st.tuples(_w, _T).map(list), min_size=1, max_size=6),
    )
)  # fmt: skip
_coast = st.fixed_dictionaries(
    dict(
        p=st.fixed_dictionaries(dict(a=g.log(1e-3, 5.0), b=_coef(0.5), c=_coef(0.01), j_load=g.log(1e-4, 1.0))),
        rev=st.booleans(), rotor=st.one_of(st.none(), g.log(1e-4, 1.0)), w0=st.one_of(st.just(0.0), g.f(-50, 50)),
        frac=g.f(-0.99, 0.99), f=st.sampled_from([0.0, 10.0, 300.0]), span=st.sampled_from([0.02, 0.5, 5.0]),
    )
)  # fmt: skip


@st.composite
def _drive(draw):
    spec = draw(g.specs(features=("mp", "jac"), p_feature=0.5))
    act, _, motor = g.split(spec["id"])
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4, 2e-4]))
    kind = draw(st.sampled_from(["static", "static", "static", "const", "ext"]))
    pos = motor in ("SeriesDc", "ShuntDc")
    w0 = draw(st.one_of(st.just(0.0), g.f(0 if pos else -100, 100), g.f(0, 2)))
    if kind == "static":
        d = draw(st.fixed_dictionaries(dict(kind=st.just(kind), a=_coef(1.0), b=_coef(0.1), c=_coef(0.005), j=g.log(3e-4, 1e-1))))
        d["w0"] = w0
        spec["solver"] = draw(st.sampled_from([None, "dopri5", "dop853", "RK45", "odeint", "lsoda"]))
    elif kind == "const":
        d = dict(kind=kind, w0=w0, w1=draw(g.f(0, 100)), by=draw(st.sampled_from(["arg", "init", "both", "random"])))
        spec["solver"] = draw(st.sampled_from(g.SOLVER_NAMES))
    else:
        d = draw(
            st.fixed_dictionaries(
                dict(
                    kind=st.just(kind), shape=st.sampled_from(["const", "ramp", "sine", "cos"]), amp=g.f(-100, 100), bias=g.f(-20, 20),
                    slope=g.f(-500, 500), f=st.sampled_from([1.0, 10.0, 60.0]), tau_rel=st.sampled_from([1, 1, 2, 5]),
                )
            )
        )  # fmt: skip
        spec["solver"] = draw(st.sampled_from(["euler", "dopri5", "RK45", "odeint", "lsoda"]))
        if act == "Finite" and draw(st.booleans()):
            spec["lock"] = 0.1
    if kind != "static" and spec.get("solver", "").startswith("euler"):
        spec.pop("mp", None)  # default parameters and small steps only: the electrical part has to stay stable
        spec["tau"] = 1e-5
    return dict(spec=spec, load=d, seed=draw(st.integers(0, 99)), plan=draw(g.segments(5, 6)))


_ou_case = dict(mu=g.f(-50, 100), theta=g.f(0, 10), tau=st.sampled_from([1e-5, 1e-4, 1e-3]), seed=st.integers(0, 999))
SUBS = [
    Sub("static", _static_case, run_static, 8000, 200000, shards=2),
    Sub("coast", _coast, run_coast, 1200, 30000, shards=4),
    Sub("drive", _drive(), run_drive, 900, 30000, shards=8),
    Sub(
        "ou",
        st.fixed_dictionaries(
            dict(sigma=st.one_of(st.just(0.0), g.log(1e-3, 50)), range=st.sampled_from([[-200.0, 200.0], [0.0, 60.0], [10.0, 10.5]]), n=st.integers(3, 40), **_ou_case)
        ),
        run_ou, 1500, 30000,
    ),
    Sub("ou_law", st.fixed_dictionaries(dict(sigma=g.log(1e-3, 50), range=st.none(), n=st.none(), **_ou_case)), run_ou_law, 40, 400),
]  # fmt: skip
