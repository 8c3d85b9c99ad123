"""C04: simulated motor dynamics follow the documented machine equations."""
import numpy as np
from hypothesis import strategies as st

from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, check

PROPERTY = "C04"
RULE = (
    "ode: random machine parameters, state, speed and voltages for one of the nine machines; non-trivial if at least "
    "one electrical state, the speed and one voltage are non-zero. step: environment specification and action plan, "
    "co-simulated with the reference model; non-trivial if at least 3 steps were compared and a current flows."
)
FULL = g.DEFAULT_MP


def _vec(case_vals, n, scale):
    return np.array([v * scale for v in (case_vals * n)[:n]])


def run_ode(case):
    motor, mp = case["motor"], g.mp_from(case["motor"], case["mp"])
    m = g.MOTOR_CLS[motor](motor_parameter=dict(mp))
    mod = M.Machine(motor, mp)
    n = mod.n_states()
    x = np.array((case["x"] * 6)[:n], float)
    if motor in g.IND:
        x[2:4] /= 100.0  # flux linkages
    if motor == "DFIM":
        u = np.array((case["u"] * 4)[:4], float).reshape(2, 2)
    else:
        nu = {"ExtExDc": 2, "PMSM": 2, "SynRM": 2, "EESM": 3, "SCIM": 2}.get(motor, 1)
        u = np.array((case["u"] * 3)[:nu], float)
    w = case["w"]
    x0, u0 = x.copy(), u.copy()
    with np.errstate(all="ignore"):
        got = np.asarray(m.electrical_ode(x, u, w), float)
    ref = mod.ode(x, u, w)
    check(np.array_equal(x, x0) and np.array_equal(u, u0), "electrical_ode changes its arguments")
    # tolerance: rounding relative to the largest term of each row
    scale = np.abs(ref) + 1e-9 * (np.max(np.abs(ref)) + 1)
    mag = np.zeros(n)
    for k in range(n):
        e = np.zeros(n)
        e[k] = abs(x[k])
        mag += np.abs(mod.ode(e, u * 0, 0.0)) + np.abs(mod.ode(e, u * 0, w))
    mag += np.abs(mod.ode(x * 0, np.abs(u), 0.0)) + np.abs(mod.ode(x * 0, u * 0, w))
    check(got.shape == ref.shape, lambda: f"electrical_ode has shape {got.shape} instead of {ref.shape}")
    bad = np.abs(got - ref) > 1e-9 * (scale + mag)
    check(not bad.any(), lambda: f"{motor}: derivative of state {np.flatnonzero(bad).tolist()}: {got.tolist()} instead of {ref.tolist()}")
    t, tr = float(m.torque(x)), float(mod.torque(x))
    terms = abs(tr) + 1e-9
    if motor not in g.DC:
        ax = np.abs(x)
        if motor in g.IND:
            ir = (ax[2:4] + mod.lm * ax[:2]) / mod.lr
            terms += 3 * mp["p"] * (mod.L[0, 0] * ax[:2].max() + mod.lm * ir.max()) * ax[:2].max()
        else:
            terms += sum(abs(mod.torque(np.where(np.isin(np.arange(n), [i, k]), ax, 0))) for i in range(n) for k in range(i))
    check(abs(t - tr) <= 1e-9 * terms, lambda: f"{motor}: torque {t} instead of {tr}")
    i_in = np.asarray(m.i_in(x if motor not in g.IND else x), float).ravel()
    exp = {"ShuntDc": x[:1] + x[1:2], "PMSM": x[:2], "SynRM": x[:2], "EESM": x[:3], "SCIM": x[:2], "DFIM": x[:2]}.get(motor, x[: len(mod.mp) and n])
    check(i_in.shape == exp.shape and np.allclose(i_in, exp, rtol=1e-12), lambda: f"{motor}: input currents {i_in.tolist()} instead of {exp.tolist()}")
    return bool(np.any(x) and w and np.any(u)), [motor]


# ------------------------------------------------------------------------------------------------ trajectories
REPORTED = {
    "PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"], "PMSM": ["i_sd", "i_sq"],
    "SynRM": ["i_sd", "i_sq"], "EESM": ["i_sd", "i_sq", "i_e"],
}  # fmt: skip


def _static_load(d):
    b, c = d["b"], d["c"]
    return lambda w: np.sign(w) * c * w * w + b * w


def run_step(case):
    spec = dict(case["spec"], constraints=[])
    act, task, motor = g.split(spec["id"])
    mp = g.mp_from(motor, spec.get("mp", {}))
    spec["mp"] = spec.get("mp", {})
    env = g.build(spec)
    if not spec["mp"]:  # also explicitly used with the reference parameters
        env = g.build(dict(spec, mp={"j_rotor": 0}))
    mod = M.Machine(motor, mp)
    psys = env.physical_system
    names, lim = list(psys.state_names), np.asarray(psys.limits)
    tau, usup = psys.tau, psys.supply.u_nominal
    (s, r), _ = env.reset(seed=1)
    p = dict(zip(names, np.asarray(s) * lim))
    ld = spec["load"]
    t_load = _static_load(ld) if ld["kind"] == "static" else None
    j = mp["j_rotor"] + ld.get("j", 0.0)
    w = p["omega"]
    if motor in g.IND:
        x = np.zeros(5)
        x[4] = p["epsilon"]
    else:
        x = np.array([p[n] for n in REPORTED[motor]] + ([p["epsilon"]] if motor in g.SYNC else []))
    lock = spec.get("lock")
    conv = M.Conv(M.default_converter(act, motor), tau, (lock or 0) * tau)
    conv.reset()
    dead = 0
    n, peak, scale_i, scale_t, scale_w = 0, 0.0, 1e-3, 1e-3, abs(w) + 1e-2
    x_top = np.zeros(len(x))
    for a in g.expand(env.action_space, case["plan"]):
        (s, r), *_ = env.step(a)
        if lock is None:
            u_out = usup * np.array(M.ideal_output(act, motor, a))
            x, w = mod.rk4(x, M.motor_input(mod, x, u_out), w, tau, 24, j, t_load)
        else:
            # the diodes decide on the voltage: stop as soon as the direction of a current is not certain
            conv.command(a if motor in ("ExtExDc", "EESM", "DFIM") or act == "Cont" else int(a))
            parts = [("dead", lock * tau), ("active", tau - lock * tau)] if conv.has_dead else [("active", tau)]
            undecided = False
            for phase, dt in parts:
                i_out = M.terminal_currents(mod, x)
                if (phase == "dead" or act == "Cont") and any(abs(i) < 2e-3 * scale_i for i in i_out):
                    if n > 0 or any(i != 0 for i in i_out):
                        undecided = True
                        break
                u_out = usup * np.array(conv.output(i_out, phase, pinned4=True))
                x, w = mod.rk4(x, M.motor_input(mod, x, u_out), w, dt, 24, j, t_load)
                dead += phase == "dead"
            if undecided:
                break
        n += 1
        p = dict(zip(names, np.asarray(s) * lim))
        t = mod.torque(x)
        if motor in g.IND:
            iabc = M.t32(x[:2])
            pairs = [(p[k], v) for k, v in zip(("i_sa", "i_sb", "i_sc"), iabc)]
            ir = (x[2:4] - mod.lm * x[:2]) / mod.lr
            if motor == "DFIM":
                pairs += [(p[k], v) for k, v in zip(("i_ra", "i_rb", "i_rc"), M.t32(M.rot(ir, -x[4])))]
        else:
            pairs = [(p[k], v) for k, v in zip(REPORTED[motor], x)]
        # relative to what has flown so far in the machine, and to the current one step of voltage drives
        scale_i = max([scale_i] + [abs(v) for _, v in pairs])
        scale_t, scale_w = max(scale_t, abs(t)), max(scale_w, abs(w))
        if not np.isfinite(scale_i) or scale_i > 1e7:
            break
        tol = 2e-4 * (1 + 0.05 * n)
        for got, ref in pairs:
            check(
                abs(got - ref) <= tol * scale_i,
                lambda: f"{motor} step {n}: currents {[q[0] for q in pairs]} instead of {[float(q[1]) for q in pairs]}",
            )
        # where products of large currents cancel, the errors of the currents show in the torque
        x_top = np.maximum(x_top, [scale_i] * len(x) if motor not in g.IND else np.repeat([np.hypot(*x[:2]), np.hypot(*x[2:4]), 1], [2, 2, len(x) - 4]))
        cancel = sum(abs(mod.torque(x + dx) - t) for dx in np.diag(0.02 * tol * x_top))
        check(abs(p["torque"] - t) <= 2 * tol * scale_t + 1e-4 * tol * scale_i + cancel, lambda: f"{motor} step {n}: torque {p['torque']} instead of {t}")
        check(abs(p["omega"] - w) <= tol * scale_w, lambda: f"{motor} step {n}: omega {p['omega']} instead of {w}")
        if motor not in g.DC:
            eps = x[3] if motor == "EESM" else x[4] if motor in g.IND else x[2]
            d = M.wrap(p["epsilon"] - eps)
            check(abs(d) <= tol * 10 * max(1.0, scale_w * tau * n), lambda: f"{motor} step {n}: epsilon {p['epsilon']} instead of {M.wrap(eps)}")
        peak = max(peak, abs(pairs[0][0]))
    return n >= 3 and peak > 0, [motor, act, ld["kind"]] + (["dead time"] if dead else [])


# ------------------------------------------------------------------------------------------- more mechanical states
def run_mechanics(case):
    """A further mechanical state that nothing depends on (a position) leaves everything else as it is."""
    spec, extra = dict(case["spec"], constraints=[]), dict(pos=case["pos"], pos0=case["pos0"])
    plain, twin = g.build(spec), g.build(dict(spec, load={**spec["load"], **extra}))
    motor = g.split(spec["id"])[2]
    y, z = plain.physical_system, twin.physical_system
    names, more = list(y.state_names), list(z.state_names)
    want = list(names)
    want.insert(0 if case["pos"] == "front" else 1, "position")
    check(more == want, lambda: f"{spec['id']}: states {more} instead of {want}")
    at = [i for i, n in enumerate(more) if n != "position"]
    for what in ("limits", "nominal_state"):
        a, b = np.asarray(getattr(y, what)), np.asarray(getattr(z, what))
        check((a == b[at]).all(), lambda: f"{spec['id']}: {what} {dict(zip(more, b))} instead of {dict(zip(names, a))}")
    ip, iw = more.index("position"), more.index("omega")
    check((z.limits[ip], z.nominal_state[ip]) == (g.POS_LIMIT, g.POS_NOMINAL), lambda: f"limits of the position: {z.limits[ip]}, {z.nominal_state[ip]}")
    for what in ("low", "high"):
        a, b = getattr(y.state_space, what), getattr(z.state_space, what)
        check((a == b[at]).all(), lambda: f"{spec['id']}: state space {what} {dict(zip(more, b))} instead of {dict(zip(names, a))}")
    euler = spec["solver"] == "euler"
    tol = 1e-9 if euler else 1e-3
    noisy = any(w["kind"] == "noise" for w in spec.get("wrappers", []))
    frame = [i for i, n in enumerate(names) if not (not euler and n[-2:] in ("sd", "sq", "rd", "rq") and "i_sa" in names)]
    scale, n, moved, last, top = 1e-3, 0, False, None, 0.0
    for a in [None] + list(g.expand(plain.action_space, case["plan"])):
        if a is None:
            (s, r), _ = plain.reset(seed=case["seed"])
            (q, p), _ = twin.reset(seed=case["seed"])
            w0, w1 = 0.0, 0.0
        else:
            (s, r), rew, *_ = plain.step(a)
            (q, p), rew2, *_ = twin.step(a)
            n += 1
        s, q = np.asarray(s), np.asarray(q)
        if not np.isfinite(s).all() or np.abs(s).max() > 1e4:
            break
        check(np.array_equal(r, p), lambda: f"{spec['id']} step {n}: references {p} instead of {r}")
        scale = max(scale, np.abs(s[frame]).max())
        d = np.abs(s - q[at])
        for i, k in enumerate(names):
            if k == "epsilon":
                d[i] = min(d[i], abs(2 - d[i]))
        d = d[frame]
        check(
            d.max() <= tol * scale * (1 + (0 if euler else 0.05 * n)),
            lambda: f"{spec['id']} step {n}: with a position as second mechanical state: {dict(zip(more, q))} instead of {dict(zip(names, s))}",
        )
        if a is not None and euler:
            check(abs(rew - rew2) <= 1e-9 * max(1, abs(rew)), lambda: f"{spec['id']} step {n}: reward {rew2} instead of {rew}")
        pos, w1 = q[ip] * g.POS_LIMIT, q[iw] * z.limits[iw]
        if a is None:
            check(abs(pos - case["pos0"]) <= 1e-9 * max(1, abs(pos)), lambda: f"initial position {pos} instead of {case['pos0']}")
        elif euler and not noisy:
            step = 0.5 * y.tau * (w0 + w1)
            allowed = 0.5 * y.tau * abs(w1 - w0) * 1.01 + 1e-3 * y.tau * max(abs(w0), abs(w1), top) + 1e-11 * (1 + abs(pos))
            check(
                abs(pos - last - step) <= allowed,
                lambda: f"{spec['id']} step {n}: the position moves by {pos - last} at speeds from {w0} to {w1} in {y.tau} s",
            )
        top = max(top, abs(w1))
        last, w0 = pos, w1
        moved = moved or bool(w1 and np.abs(q[z.CURRENTS_IDX[0]]) > 0 if not spec.get("wrappers") else w1)
    return n >= 5 and moved, [motor, spec["load"]["kind"], case["pos"], str(spec["solver"])]


@st.composite
def _mech_case(draw):
    spec = draw(g.specs(features=("tau", "lock", "supply", "mp", "minit", "wrappers", "ref", "reward"), p_feature=0.35))
    motor = g.split(spec["id"])[2]
    if spec.get("minit", {}).get("random_init"):
        spec.pop("minit")
    spec["solver"] = draw(st.sampled_from(["euler", "euler", "euler", None, "dopri5", "lsoda", "RK45"]))
    spec["load"] = draw(g.loads(motor).filter(lambda d: d["kind"] != "ou" and not (d.get("init") or {}).get("random_init")))
    if spec["load"]["kind"] == "ext":
        spec["solver"] = "euler"
    spec["jac"] = draw(st.sampled_from([None, None, True, False]))
    return dict(
        spec=spec, pos=draw(st.sampled_from(["front", "back"])), pos0=draw(st.one_of(st.just(0.0), g.f(-500, 500))),
        seed=draw(st.integers(0, 99)), plan=draw(g.segments(6, 8)),
    )  # fmt: skip


_step_load = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("const"), omega=g.f(0, 150))),
    st.fixed_dictionaries(
        dict(kind=st.just("static"), a=st.just(0.0), b=g.f(0, 0.05), c=g.f(0, 0.001), j=g.log(1e-3, 1e-1)),
        optional=dict(init=st.fixed_dictionaries(dict(states=st.fixed_dictionaries(dict(omega=g.f(0, 100)))))),
    ),
)


@st.composite
def _step_case(draw):
    spec = draw(g.specs(features=("mp", "minit", "jac"), p_feature=0.5))
    motor = g.split(spec["id"])[2]
    if motor in g.IND:
        spec.pop("minit", None)
    elif spec.get("minit", {}).get("random_init"):
        spec.pop("minit")
    spec["load"] = draw(_step_load)
    if draw(st.integers(0, 3)) == 0:
        spec["load"] = dict(spec["load"], pos=draw(st.sampled_from(["front", "back"])))
    spec["solver"] = draw(st.sampled_from([None, "dopri5", "dop853", "RK45", "odeint", "lsoda"]))
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4, 2e-4, 4e-4]))
    if draw(st.booleans()):
        spec["lock"] = draw(st.sampled_from([0.05, 0.2, 0.5]))
    return dict(spec=spec, plan=draw(g.segments(6, 8)))


_num = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 100.0]), g.f(-400, 400), g.f(-5, 5))
SUBS = [
    Sub(
        "ode",
        st.sampled_from(g.MOTORS).flatmap(
            lambda m: st.fixed_dictionaries(
                dict(
                    motor=st.just(m), mp=g.mp_scale(m), x=st.lists(_num, min_size=5, max_size=5),
                    u=st.lists(_num, min_size=4, max_size=4), w=_num,
                )
            )
        ),
        run_ode, 8000, 300000, shards=4,
    ),
    Sub("step", _step_case(), run_step, 2400, 60000, shards=8),
    Sub("mechanics", _mech_case(), run_mechanics, 800, 20000, shards=8),
]  # fmt: skip
