"""C12: initial states are the requested ones, or random inside the requested range."""
import copy
import math

import numpy as np
from hypothesis import strategies as st
from scipy.stats import truncnorm

from gym_electric_motor import physical_systems as ps
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, check

PROPERTY = "C12"
RULE = (
    "init: one of the 54 environments, an initializer of the motor (constant, uniform, gaussian; named states in any "
    "order, intervals, parameters) and of the load, and several resets with episodes in between; non-trivial if at "
    "least two resets followed an episode of at least one step, or a distribution was sampled. reject: initializers "
    "that must be rejected."
)
STATES = {
    "PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"],
    "PMSM": ["i_sd", "i_sq", "epsilon"], "SynRM": ["i_sd", "i_sq", "epsilon"], "EESM": ["i_sd", "i_sq", "i_e", "epsilon"],
    "SCIM": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"],
    "DFIM": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"],
}  # fmt: skip
_PROBE = {}


def probe(env_id):
    """nominal value and lowest admissible value of each initial state (public data of the drive)"""
    if env_id not in _PROBE:
        motor = g.split(env_id)[2]
        env = g.build(dict(id=env_id))
        y = env.physical_system
        names = list(y.state_names)
        nom, low = dict(zip(names, y.nominal_state)), dict(zip(names, y.state_space.low))
        rng = {}
        for n in STATES[motor]:
            if n.startswith("psi"):
                mp = y.electrical_motor.motor_parameter
                rng[n] = (-mp["l_m"] * nom["i_sd"], mp["l_m"] * nom["i_sd"])
            else:
                k = {"i_salpha": "i_sd", "i_sbeta": "i_sd"}.get(n, n)
                rng[n] = (low[k] * nom[k], nom[k])
        rng["omega"] = (low["omega"] * nom["omega"], nom["omega"])
        _PROBE[env_id] = rng
    return _PROBE[env_id]


def _scale(rng, u):
    """u in -1..1 -> value in the range; zero stays zero"""
    return u * (rng[1] if u >= 0 else -rng[0])


def _interval(rng, iv):
    lo, hi = _scale(rng, min(iv)), _scale(rng, max(iv))
    if hi - lo < 1e-3 * (rng[1] - rng[0]):
        lo, hi = rng[0] + 0.2 * (rng[1] - rng[0]), rng[1]
    return [lo, hi]


def make_init(d, names, rng):
    """-> initializer dict, {state: (kind, ...)} expectation"""
    order = [names[i % len(names)] for i in d["order"]]
    order = list(dict.fromkeys(order))
    if d["full"] or d["mode"] != "const":
        order += [n for n in names if n not in order]
    vals = dict(zip(names, d["vals"]))
    init, exp = {}, {}
    if d["mode"] == "const":
        flux = [n for n in names if n.startswith("psi")]
        states = {n: _scale(rng[n], vals[n] * (0.45 if n in flux else 0.999)) for n in order}
        init["states"] = states
        exp = {n: ("const", states.get(n, 0.0)) for n in names}
        if d["explicit"]:
            init.update(random_init=None, interval=None, random_params=(None, None))
        return init, exp
    init["states"] = {n: 0.0 for n in order}
    init["random_init"] = {"uniform": "uniform", "gaussian": "gaussian", "normal": "normal"}[d["mode"]]
    bounds = {n: list(rng[n]) for n in order}
    if d["iv"] is not None:
        iv = dict(zip(names, d["iv"]))
        bounds = {n: _interval(rng[n], iv[n]) for n in order}
        init["interval"] = [bounds[n] for n in order]
        if d["explicit"]:
            init["interval"] = np.array(init["interval"])
    if d["mode"] != "uniform":
        mu, sg = d["params"]
        init["random_params"] = (mu, sg)
        exp = {n: ("gauss", bounds[n], mu, sg) for n in order}
    else:
        exp = {n: ("uniform", bounds[n]) for n in order}
    return init, exp


def run_init(case):
    env_id = case["id"]
    motor = g.split(env_id)[2]
    rng = probe(env_id)
    names = STATES[motor]
    md, ld = case["motor"], case["load"]
    if motor in g.IND and md is not None and md["mode"] in ("gaussian", "normal"):
        md = dict(md, mode="uniform")  # the flux range may be empty, see DESIGN.md
    kw, exp = {}, {n: ("const", 0.0) for n in names + ["omega"]}
    lim = None
    if md is not None:
        init, e = make_init(md, names, rng)
        exp.update(e)
        if motor in g.IND and md["mode"] != "const":
            for n in names:
                if n.startswith("psi"):  # the admissible flux depends on speed and angle; only bounded here
                    exp[n] = ("range", exp[n][1])
            if md["iv"] is not None:  # intervals of the fluxes have to overlap the admissible flux: symmetric ones
                init["interval"] = [
                    (list(rng[n]) if n.startswith("psi") else list(v)) for n, v in zip(init["states"], np.asarray(init["interval"]).tolist())
                ]
                exp.update({n: ("range", list(rng[n])) for n in names if n.startswith("psi")})
        given = copy.deepcopy(init)
        kw["motor"] = g.MOTOR_CLS[motor](motor_initializer=init)
    if ld is not None:
        li, le = make_init(ld, ["omega"], rng)
        if motor in g.IND and md is not None and md["mode"] == "const" and any(v for n, v in kw["motor"].initializer["states"].items() if n.startswith("psi")):
            li, le = None, {"omega": ("const", 0.0)}  # the admissible flux depends on the speed
        exp.update(le)
        if case["loadcls"] == "static":
            kw["load"] = ps.PolynomialStaticLoad(load_parameter=dict(a=0.01, b=0.01, c=0.0, j_load=1e-3), load_initializer=li)
        else:
            kw["load"] = ps.ConstantSpeedLoad(load_initializer=li)
    else:
        kw["load"] = ps.PolynomialStaticLoad(load_parameter=dict(j_load=1e-3))
    solver = g.solver("dopri5")
    env = g.build(dict(id=env_id, constraints=[]), ode_solver=solver, **kw)
    y = env.physical_system
    pn, limits = list(y.state_names), np.asarray(y.limits)
    mp = dict(y.electrical_motor.motor_parameter)
    mach = M.Machine(motor, mp)
    samples = {n: [] for n in exp}
    n_ep, rnd = 0, any(v[0] in ("uniform", "gauss") for v in exp.values())
    plans = case["plans"] + ([[]] * 30 if case["many"] and rnd else [])
    for k, plan in enumerate(plans):
        (s, r), _ = env.reset(seed=case["seed"] if k == 0 else None)
        d = dict(zip(pn, np.asarray(s, float) * limits))
        ode = np.array(solver.y, float)
        x = dict(zip(["omega"] + names, ode))
        check(solver.t == 0, lambda: f"time {solver.t} after reset")
        check(y.k == 0, lambda: f"step counter {y.k} after reset")
        for n, e in exp.items():
            v = x[n]
            tol = 1e-9 * (1 + abs(rng[n][1]))
            if n == "epsilon":
                check(abs(M.wrap(d[n] - v)) < 1e-9, lambda: f"reported epsilon {d[n]}, integrated {v}")
            elif n in d:
                check(abs(d[n] - v) <= tol, lambda: f"reset {k}: reported {n}={d[n]}, integrated {v}")
            if e[0] == "const":
                check(abs(v - e[1]) <= tol, lambda: f"{motor} reset {k}: {n} starts at {v} instead of {e[1]} (initializer {md if n != 'omega' else ld})")
            else:
                lo, hi = e[1]
                check(lo - tol <= v <= hi + tol, lambda: f"{motor} reset {k}: {n} starts at {v}, outside of the requested {e[1]}")
                check(rng[n][0] - tol <= v <= rng[n][1] + tol, lambda: f"{motor} reset {k}: {n} starts at {v}, outside of the nominal range {rng[n]}")
                samples[n].append(v)
        if motor in g.IND:
            check(math.hypot(x["psi_ralpha"], x["psi_rbeta"]) <= rng["psi_ralpha"][1] * math.sqrt(2) * (1 + 1e-9), "initial flux beyond the nominal flux")
        t = float(mach.torque(ode[1:]))
        sc = abs(t) + 1e-9 + 1e-3 * abs(limits[pn.index("torque")])
        check(abs(d["torque"] - t) <= 1e-7 * sc, lambda: f"initial torque {d['torque']} instead of {t} at {x}")
        n_steps = 0
        for a in g.expand(env.action_space, plan):
            (s, r), *_ = env.step(a)
            n_steps += 1
            check(y.k == n_steps, lambda: f"step counter {y.k} after {n_steps} steps")
            if not np.isfinite(s).all() or np.max(np.abs(s)) > 1e4:
                break
        n_ep += n_steps > 0
    if md is not None:
        a, b = given["states"], init["states"]
        check(a == b, lambda: f"the user's initial states {a} were changed to {b}")
    for n, v in samples.items():
        e = exp[n]
        if len(v) >= 2 and e[0] in ("uniform", "gauss"):
            check(len(set(v)) > 1, lambda: f"{n} starts at {v[0]} in every episode, although random values are requested")
        if len(v) >= 30 and e[0] == "uniform":
            lo, hi = e[1]
            check(max(v) - min(v) > 0.35 * (hi - lo), lambda: f"uniform {n} in {e[1]}: {len(v)} samples only cover {min(v)}..{max(v)}")
            check(abs(np.mean(v) - 0.5 * (lo + hi)) < 6.5 * (hi - lo) / math.sqrt(12 * len(v)), lambda: f"uniform {n} in {e[1]}: mean {np.mean(v)} of {len(v)} samples")
        if len(v) >= 30 and e[0] == "gauss":
            (lo, hi), mu, sg = e[1], e[2], e[3]
            mu = 0.5 * (lo + hi) if mu is None else mu
            sg = 1.0 if sg is None else sg
            tn = truncnorm((lo - mu) / sg, (hi - mu) / sg, loc=mu, scale=sg)
            check(abs(np.mean(v) - tn.mean()) < 7 * tn.std() / math.sqrt(len(v)) + 1e-9, lambda: f"gaussian {n} ({mu}, {sg}) in {e[1]}: mean {np.mean(v)} instead of {tn.mean()}")
            check(0.4 < np.std(v) / tn.std() < 2.0, lambda: f"gaussian {n} ({mu}, {sg}) in {e[1]}: deviation {np.std(v)} instead of {tn.std()}")
    labels = [motor, "motor:" + (md["mode"] if md else "default"), "load:" + (ld["mode"] if ld else "default")]
    return n_ep >= 2 or rnd, labels


def run_reject(case):
    env_id, kind = case["id"], case["kind"]
    motor = g.split(env_id)[2]
    rng, names = probe(env_id), STATES[motor]
    names = [n for n in names if not n.startswith("psi")]
    n = names[case["k"] % len(names)]
    f = 1.0 + case["by"]
    kw = {}
    if kind == "high":
        kw["motor"] = g.MOTOR_CLS[motor](motor_initializer=dict(states={n: rng[n][1] * f}))
    elif kind == "low":
        kw["motor"] = g.MOTOR_CLS[motor](motor_initializer=dict(states={n: min(rng[n][0], -0.1 * rng[n][1]) * f}))
    elif kind == "interval":
        kw["motor"] = g.MOTOR_CLS[motor](
            motor_initializer=dict(states={q: 0.5 * rng[q][1] for q in names if q == n} | {q: 0.0 for q in STATES[motor] if q != n}, interval=[[-1e-3, 1e-3]] * len(STATES[motor]))
        )
    elif kind == "omega":
        kw["load"] = ps.PolynomialStaticLoad(load_initializer=dict(states=dict(omega=rng["omega"][1] * f)))
    elif kind == "dist":
        kw["motor"] = g.MOTOR_CLS[motor](motor_initializer=dict(states={q: 0.0 for q in STATES[motor]}, random_init="triangular"))
    elif kind == "unknown":
        kw["motor"] = None
    try:
        if kind == "unknown":
            kw["motor"] = g.MOTOR_CLS[motor](motor_initializer=dict(states={"i_nothing": 0.0}))
        elif kind == "key":
            kw["motor"] = g.MOTOR_CLS[motor](motor_initializer=dict(state={n: 0.0}))
        env = g.build(dict(id=env_id), **kw)
        env.reset()
    except Exception:
        return True, [kind]
    check(False, f"{motor}: initializer '{kind}' for {n} accepted")


_val = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), g.f(-1, 1))


def _init(n):
    return st.one_of(
        st.none(),
        st.fixed_dictionaries(
            dict(
                mode=st.sampled_from(["const", "const", "uniform", "gaussian", "normal"]), full=st.booleans(), explicit=st.booleans(),
                order=st.permutations(list(range(n))), vals=st.lists(_val, min_size=n, max_size=n),
                iv=st.one_of(st.none(), st.lists(st.lists(_val, min_size=2, max_size=2), min_size=n, max_size=n)),
                params=st.sampled_from([[None, None], [None, 2.0], [1.0, None], [0.0, None], [0.0, 2.0], [1.5, 0.5], [-0.5, 1.0]]),
            )
        ).map(_fix),
    )  # fmt: skip


def _fix(d):
    if d["mode"] == "const" and not d["full"]:
        d = dict(d, order=d["order"][: 1 + len(d["order"]) // 2])
    if d["mode"] in ("gaussian", "normal") and d["iv"] is not None and d["params"][0] == 0.0:
        return dict(d, iv=[[min(*v, 0.0), max(*v, 0.2)] for v in d["iv"]])  # a mean inside of all intervals
    if d["mode"] in ("gaussian", "normal") and d["iv"] is not None:
        d = dict(d, params=[None, d["params"][1]])  # a given mean has to lie near all intervals
    return d


@st.composite
def _case(draw):
    env_id = draw(g.ids)
    motor = g.split(env_id)[2]
    pos = motor in ("SeriesDc", "ShuntDc")
    md, ld = draw(_init(len(STATES[motor]))), draw(_init(1))
    low = probe(env_id)
    for d, names in ((md, STATES[motor]), (ld, ["omega"])):
        if d is None:
            continue
        d["vals"] = [abs(v) if low[n][0] == 0 else v for v, n in zip(d["vals"], names)]
        if d["iv"] is not None:
            d["iv"] = [[abs(a), abs(b)] if low[n][0] == 0 else [a, b] for (a, b), n in zip(d["iv"], names)]
        if any(low[n][0] == 0 for n in names) and d["params"][0] is not None and d["params"][0] < 0:
            d["params"] = [1.0, d["params"][1]]
    return dict(
        id=env_id, motor=md, load=ld, loadcls=draw(st.sampled_from(["static", "static", "const"])), seed=draw(st.integers(0, 999)),
        many=draw(st.booleans()), plans=draw(st.lists(g.segments(2, 6), min_size=1, max_size=4)),
    )  # fmt: skip


def prepare():
    for i in g.IDS:
        probe(i)


_reject = st.fixed_dictionaries(
    dict(
        id=g.ids, k=st.integers(0, 4), by=g.log(0.01, 3), kind=st.sampled_from(["high", "low", "interval", "omega", "dist", "unknown", "key"])
    )
)
SUBS = [
    Sub("init", _case(), run_init, 4000, 60000, shards=7),
    Sub("reject", _reject, run_reject, 300, 5000),
]
