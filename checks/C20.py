"""C20: complete controllers yield finite, admissible actions and track references."""
import contextlib
import io

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import gem_controllers as gc
import gym_electric_motor as gem
from checks import C19, C21
from gym_electric_motor import core
from gym_electric_motor import reference_generators as rg
from gym_electric_motor.physical_system_wrappers import FluxObserver
from gym_electric_motor.visualization import ConsolePrinter, MotorDashboard
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C20"
RULE = (
    "act: controllers of every supported drive, task and action type with arbitrary options over arbitrary histories of "
    "observations, references and resets, next to a twin for a second environment and to a controller that sees other data; "
    "non-trivial if the actions differ over the history. loop: closed loops with random reachable constant references (a "
    "steady state with voltages and currents inside of the limits exists), random parameters and initial currents; "
    "non-trivial if the reference differs from the initial value by more than 2 %. switching: the same in the mean for "
    "finite action sets. episodes: control_environment against a loop written by hand; non-trivial with a second episode. "
    "visu: the same trajectory with every visualization."
)
V = C19.V
CC = C19.CC
SUPPORTED = [i for i in C19.CONT + C19.DCF if g.split(i)[2] != "EESM" or g.split(i)[1] == "CC"]


@st.composite
def options(draw, eid):
    act, task, motor = g.split(eid)
    kinds = ["PI", "PI", "P", "PID"] + (["ThreePoint"] if motor in g.DC else [])
    kw = dict(a=draw(st.sampled_from([4, 4, 2, 8, 50])))
    if draw(st.booleans()):
        kw["base_current_controller"] = draw(st.sampled_from(kinds))
    if draw(st.booleans()):
        kw["decoupling"] = draw(st.booleans())
    if task == "SC" and draw(st.booleans()):
        kw["base_speed_controller"] = draw(st.sampled_from(["P", "PI", "PID", "ThreePoint"]))
    if task != "CC" and draw(st.booleans()):
        kw["current_safety_margin"] = draw(st.sampled_from([0.0, 0.1, 0.5]))
    return kw


# --------------------------------------------------------------------------------------------- actions
@st.composite
def act_cases(draw):
    spec = draw(C19.drives(SUPPORTED))
    return dict(spec=spec, kw=draw(options(spec["id"])), hist=draw(C19.HIST), hand=draw(st.booleans()))


def by_hand(
    env,
    eid,
    a=4,
    base_current_controller="PI",
    base_speed_controller="PI",
    decoupling=True,
    current_safety_margin=0.2,
):
    """The controller of the given options, composed of its blocks by hand (cascade of current, torque and speed)."""
    task = g.split(eid)[1]
    ctl = gc.PICurrentController(env, eid, base_current_controller=base_current_controller, decoupling=decoupling)
    ctl.tune(env, eid, a=a)
    if task in ("TC", "SC"):
        ctl = gc.TorqueController(env, eid, current_controller=ctl)
        ctl.tune(env, eid, current_safety_margin=current_safety_margin, tune_current_controller=False)
    if task == "SC":
        ctl = gc.PISpeedController(env, eid, torque_controller=ctl, base_speed_controller=base_speed_controller)
        ctl.tune(env, eid, tune_torque_controller=False, a=a)
    adapter = gc.GymElectricMotorAdapter(env, eid, ctl)
    adapter.tune(env, eid, tune_controller=False)
    return adapter


def snapshot(env):
    s = env.physical_system
    return repr(
        [
            env.limits.tolist(),
            np.asarray(s.nominal_state).tolist(),
            sorted(s.electrical_motor.motor_parameter.items()),
            sorted(s.electrical_motor.limits.items()),
            sorted(s.electrical_motor.nominal_values.items()),
            s.mechanical_load.j_total,
            s.tau,
            str(env.action_space),
            env.state_names,
        ]
    )


def same_action(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(a, b)


def check_cascade(env, ctl, motor, kw):
    """The speed controller is tuned (symmetric optimum) for the fastest of the current loops below it."""
    mp, tau, a = env.physical_system.electrical_motor.motor_parameter, env.physical_system.tau, kw["a"]
    if kw.get("base_current_controller", "PI") in ("PI", "PID"):
        t_n = a * a * tau
    elif motor == "SCIM":
        return
    elif motor == "SeriesDc":
        t_n = (mp["l_a"] + mp["l_e"]) / (mp["r_a"] + mp["r_e"])
    elif motor in ("PMSM", "SynRM"):
        t_n = min(mp["l_d"], mp["l_q"]) / mp["r_s"]
    else:
        t_n = mp["l_a"] / mp["r_a"]
        t_n = min(t_n, mp["l_e"] / mp["r_e"]) if motor == "ExtExDc" else t_n
    s, p = ctl.speed_control_stage, env.physical_system.mechanical_load.j_total / (a * t_n)
    want = [p] if kw.get("base_speed_controller") == "P" else [p, p / (a * t_n)]
    got = [float(np.squeeze(v)) for v in [s.p_gain] + ([s.i_gain] if len(want) > 1 else [])]
    check(np.allclose(got, want, rtol=1e-9), lambda: f"{motor} {kw}: speed gains {got} instead of {want}", "act:cascade")


SC_IDS = [i for i in SUPPORTED if "-SC-" in i]
KINDS = [(c, v, a) for c in ("P", "PI", "PID", "ThreePoint") for v in ("P", "PI") for a in (2, 3, 4, 9)]


@st.composite
def cascade_cases(draw):
    return dict(spec=draw(C19.drives(SC_IDS)), kinds=list(KINDS[draw(g.whole(0, len(KINDS) - 1))]))


def run_cascade(case):
    spec, (c, v, a) = case["spec"], case["kinds"]
    act, _, motor = g.split(spec["id"])
    if motor not in g.DC and c == "ThreePoint":
        c = "P"
    kw = dict(a=a, base_current_controller=c, base_speed_controller=v)
    env = C19.build(spec)
    ctl = gc.GemController.make(env, spec["id"], block_diagram=False, **kw)
    check_cascade(env, ctl.controller, motor, kw)
    return (motor, c) != ("SCIM", "P"), [act, motor, c, v]


def run_act(case):
    spec, kw = case["spec"], case["kw"]
    eid = spec["id"]
    act, task, motor = g.split(eid)
    env, twin_env = C19.build(spec), C19.build(spec)
    mk = lambda e: gc.GemController.make(e, eid, block_diagram=False, **kw)  # noqa: E731
    before = snapshot(env)
    mk2 = (lambda e: by_hand(e, eid, **kw)) if case.get("hand") else mk
    ctl, twin, noise = mk(env), mk2(twin_env), mk(env)
    for c in (ctl, twin, noise):
        c.reset()
    check(snapshot(env) == before, f"{eid}: making a controller changed the environment", "act:environment")
    if task == "SC" and kw.get("base_speed_controller", "PI") in ("P", "PI"):
        check_cascade(env, ctl.controller, motor, kw)
    nref = len(env.reference_names)
    actions = []
    for n, step in enumerate(case["hist"]):
        if step == "reset":
            ctl.reset()
            twin = mk2(twin_env)
            twin.reset()
            continue
        if step == "again":
            if n % 2:
                noise.reset()
            continue
        obs = C19.observation(env, step[0])
        r = np.array(step[1][:nref]) / 1000
        if task == "SC" and step[2] < 1:
            r = obs[:1] + r * step[2]
        o0, r0 = obs.copy(), r.copy()
        a = ctl.control(obs, r)
        check(np.array_equal(obs, o0) and np.array_equal(r, r0), f"{eid}: the controller changed its inputs", "act:inputs")
        a = np.array(a, copy=True)
        other = C19.observation(env, [-v for v in step[0]][::-1])
        noise.control(other, -r)
        b = twin.control(obs, r)
        check(
            np.all(np.isfinite(np.asarray(a, float))),
            lambda: f"{eid}: action {a} for the observation {obs.tolist()} and reference {r.tolist()}",
            "act:finite",
        )
        space = env.action_space
        if act == "Cont":
            ok = a.shape == space.shape and np.all(a >= space.low - 1e-9) and np.all(a <= space.high + 1e-9)
        else:
            ok = space.contains(np.asarray(a) if np.ndim(a) else int(a))
        check(ok, lambda: f"{eid}: action {a} is not in {space}", f"act:space:{act}")
        check(same_action(a, b), lambda: f"{eid}: action {a}, the twin yields {b}", "act:twin")
        actions.append(np.asarray(a, float).tolist())
    check(snapshot(env) == before, f"{eid}: the controller changed the environment", "act:environment")
    return len({repr(a) for a in actions}) > 1, [act, task, motor]


# --------------------------------------------------------------------------------------------- closed loops
def u_limit(env, motor):
    s = env.physical_system
    names = C19.VV[motor]
    lim = np.array([env.limits[env.state_names.index(n)] for n in names])
    sup = float(np.atleast_1d(s.supply.u_nominal)[0])
    if motor in g.DC:
        return np.minimum(lim, sup)
    out = np.minimum(lim, 0.5 * sup)
    return np.r_[out[:2], np.minimum(lim[2:], sup)]


def steady_voltage(mach, i, omega):
    """voltages that hold the currents i (dq for three-phase machines, rotor flux orientation for the SCIM)"""
    mo, mp = mach.motor, mach.mp
    if mo == "SCIM":
        ls, lr, lm, c_t, r = C21.scim_parameters(mp)
        i_d, i_q = i
        if i_d <= 0:
            return np.array([np.inf, np.inf])
        ws = mp["p"] * omega + mp["r_r"] / lr * i_q / i_d
        sl = ls - lm**2 / lr
        return np.array([mp["r_s"] * i_d - ws * sl * i_q, mp["r_s"] * i_q + ws * ls * i_d])
    if mo == "ShuntDc":
        # armature current given; the field winding has the same voltage
        den = 1 - mp["l_e_prime"] * omega / mp["r_e"]
        return np.array([np.inf if den < 0.1 else mp["r_a"] * i[0] / den])
    n = len(i)
    z = np.r_[np.asarray(i, float), 0.0]
    if mo in g.DC:
        z = z[:n]
    d0 = mach.ode(z, np.zeros(n), omega)[:n]
    A = np.array([mach.ode(z, e, omega)[:n] - d0 for e in np.eye(n)]).T
    return np.linalg.solve(A, -d0)


def holds(env, mach, i, omega, part=0.85):
    """a steady state with these currents at this speed exists inside of all limits"""
    u = steady_voltage(mach, i, omega)
    lim = u_limit(env, mach.motor)
    if not np.all(np.isfinite(u)):
        return False
    if mach.motor == "ShuntDc":
        i_e = u[0] / mach.mp["r_e"]
        if abs(i_e) > 0.9 * env.limits[env.state_names.index("i_e")]:
            return False
    if mach.motor in g.DC:
        return bool(np.all(np.abs(u) <= part * lim))
    return bool(np.hypot(*(u[:2] / lim[:2])) <= part and np.all(np.abs(u[2:]) <= part * lim[2:]))


def inside(env, names, i, part):
    lim = np.array([env.limits[env.state_names.index(n)] for n in names])
    if names[0] == "i_sd":
        return bool(np.hypot(*(i[:2] / lim[:2])) <= part and np.all(np.abs(i[2:]) <= part * lim[2:]))
    return bool(np.all(np.abs(i) <= part * lim))


def currents_for(env, mach, T, omega, i_part):
    """admissible currents for the torque, as the operating points of C21 define them; None if not reachable"""
    mo, mp = mach.motor, mach.mp
    lim = dict(zip(env.state_names, env.limits))
    if mo == "PermExDc":
        return np.array([T / mp["psi_e"]])
    if mo == "SeriesDc":
        return None if T < 0 else np.array([np.sqrt(T / mp["l_e_prime"])])
    if mo == "ExtExDc":
        i_e = np.sqrt(np.sqrt(mp["r_a"] / mp["r_e"]) * abs(T) / mp["l_e_prime"])
        return np.array([T / mp["l_e_prime"] / i_e, i_e]) if T else np.zeros(2)
    if mo == "ShuntDc":
        # T = l' u / r_e * i_a and u = r_a i_a / (1 - l' w / r_e)
        den = 1 - mp["l_e_prime"] * omega / mp["r_e"]
        if T < 0 or den < 0.1:
            return None
        return np.array([np.sqrt(T * mp["r_e"] * den / (mp["l_e_prime"] * mp["r_a"]))])
    if mo in ("PMSM", "SynRM"):
        psi = 0.7 * u_limit(env, mo)[0] / max(mp["p"] * abs(omega), 1e-3)
        if abs(T) > 0.85 * C21.max_torque(mp, i_part * lim["i_sd"], psi):
            return None
        i_d = np.linspace(-lim["i_sd"], lim["i_sd"], 2001)
        with np.errstate(divide="ignore", invalid="ignore"):
            i_q = T / (1.5 * mp["p"] * (mp.get("psi_p", 0.0) + (mp["l_d"] - mp["l_q"]) * i_d))
        k = np.nanargmin(np.hypot(i_d, i_q))
        return np.array([i_d[k], i_q[k]])
    if mo == "SCIM":
        ls, lr, lm, c_t, r = C21.scim_parameters(mp)
        i_d = np.sqrt(abs(T) / (c_t * lm) * np.sqrt(r / mp["r_s"]))
        return np.array([i_d, T / (c_t * lm * i_d)]) if T else np.zeros(2)
    raise AssertionError(mo)


MPV = dict(
    PermExDc=["r_a", "l_a", "psi_e"], SeriesDc=["r_a", "r_e", "l_a", "l_e"], ShuntDc=["r_a", "l_a"],
    ExtExDc=["r_a", "r_e", "l_a", "l_e", "l_e_prime"], PMSM=["r_s", "l_d", "l_q", "psi_p"], SynRM=["r_s", "l_d", "l_q"],
    EESM=[], SCIM=["r_s", "r_r", "l_m"],
)  # fmt: skip


@st.composite
def loop_cases(draw, ids):
    eid = draw(st.sampled_from(ids))
    act, task, motor = g.split(eid)
    spec = dict(id=eid)
    if motor == "SCIM":
        spec["wrappers"] = [dict(kind="flux")]
    if draw(st.integers(0, 2)) == 0 and MPV[motor]:
        spec["mp"] = draw(st.fixed_dictionaries({}, optional={n: st.integers(-3, 3) for n in MPV[motor]}))
    speed = draw(st.one_of(st.none(), g.whole(0, 1000)))
    if motor == "EESM" and draw(st.booleans()):
        spec["mp"] = dict(l_m=draw(st.integers(-4, 0)))  # less coupling than the default
    return dict(
        spec=spec,
        speed=None if task == "SC" else 0 if motor == "SCIM" else speed,
        ref=[draw(st.integers(-900, 900)) for _ in range(3)],
        init=[draw(st.one_of(st.just(0), st.integers(-400, 400))) for _ in range(3)],
        seed=draw(st.integers(0, 1000)),
        # slow speed controllers of the shunt motor overshoot into the limits
        a=4 if (task, motor) == ("SC", "ShuntDc") else draw(st.sampled_from([4, 4, 4, 8])),
    )


TOL = dict(CC=0.005, TC=0.01, SC=0.005)


def closed_loop(case, window, steps, tol=0.0):
    """Returns (errors, reference, start, currents) or None if not reachable.  The run ends after the given number of
    steps or as soon as the error has been below tol for the window; the errors are those of the last window."""
    spec = dict(case["spec"])
    eid = spec["id"]
    act, task, motor = g.split(eid)
    env = C19.build(spec)
    mach = C19.machine(env, spec)
    lim = dict(zip(env.state_names, env.limits))
    names = list(env.reference_names)
    ref = np.array(case["ref"][: len(names)]) / 1000
    if motor == "SCIM" and task == "CC":
        ref[0] = max(abs(ref[0]), 0.15)
    if motor == "EESM":
        ref = ref * 0.5  # the excitation winding couples strongly: larger steps overshoot beyond the limits
    kw = {}
    if task == "SC":
        if motor in ("SeriesDc", "ShuntDc"):
            ref = np.abs(ref)
        omega = ref[0] * lim["omega"]
        lp = env.physical_system.mechanical_load.load_parameter
        T = float(np.sign(omega) * (lp["a"] + lp["b"] * abs(omega) + lp["c"] * omega**2))
        T_acc = T + np.sign(omega) * 0.1 * abs(T) + np.sign(omega) * 0.02 * lim["torque"]
        i = currents_for(env, mach, T_acc, omega, 0.7)
        part = 0.7
    else:
        if case["speed"] is not None:
            f = 0.02 if motor == "SCIM" else 0.5
            nominal = float(env.physical_system.nominal_state[env.state_names.index("omega")])
            spec["load"] = dict(kind="const", omega=round(case["speed"] / 1000 * f * nominal, 3))
            omega = spec["load"]["omega"]
        else:
            omega = 100.0  # default load of the current and torque control environments
        if task == "CC":
            i = ref * [lim[n] for n in names]
            part = 0.75 if motor in g.DC else 0.6
        else:
            T = ref[0] * lim["torque"]
            i = currents_for(env, mach, T, omega, 0.75)
            part = 0.7
    cn = CC[motor]
    if i is None or not inside(env, cn, i, part) or not holds(env, mach, i, omega, 0.8):
        return None
    subs = [rg.ConstReferenceGenerator(reference_state=n, reference_value=float(r)) for n, r in zip(names, ref)]
    kw["reference_generator"] = subs[0] if len(subs) == 1 else rg.MultipleReferenceGenerator(subs)
    if motor not in ("SCIM", "ShuntDc", "SeriesDc") and any(case["init"]):
        init = {n: v / (4000 if motor == "EESM" else 1000) * lim[n] for n, v in zip(cn, case["init"])}
        if "i_sd" in init:
            init["epsilon"] = case["init"][0] / 200
        spec["minit"] = dict(states=init)
    env = C19.build(spec, **kw)
    ctl = gc.GemController.make(env, eid, block_diagram=False, a=case["a"])
    (s, r), _ = env.reset(seed=case["seed"])
    ctl.reset()
    idx = [env.state_names.index(n) for n in names]
    start = s[idx].copy()
    check(np.allclose(r, ref, atol=1e-12), lambda: f"{eid}: reference {r} instead of {ref}", "loop:reference")
    out, settled = [], 0
    for k in range(steps):
        (s, r), _, te, _, _ = env.step(ctl.control(s, r))
        check(not te, lambda: f"{eid}: limit violation in step {k}: {dict(zip(env.state_names, np.round(s, 3)))}", f"loop:limit:{motor}")
        out.append(s[idx] - ref)
        settled = settled + 1 if np.max(np.abs(out[-1])) < tol else 0
        if settled >= window:
            break
    return np.array(out[-window:]), ref, start, i


STEPS = dict(
    CC=dict(SCIM=1500, SeriesDc=2500, ExtExDc=2000, EESM=1500),
    TC=dict(ShuntDc=9000, SCIM=9000, SeriesDc=2500, ExtExDc=2500, SynRM=2000),
    SC=dict(PermExDc=6000, SeriesDc=6000, ShuntDc=16000, ExtExDc=5000, PMSM=3000, SynRM=6000),
)


def run_loop(case):
    eid = case["spec"]["id"]
    act, task, motor = g.split(eid)
    steps = STEPS[task].get(motor, 1200)
    tol = TOL[task] if motor != "SCIM" else 0.02
    res = closed_loop(case, steps // 4, steps * (case["a"] ** 2 // 16), tol)
    if res is None:
        return False, ["not reachable"]
    err, ref, start, i = res
    worst = np.max(np.abs(err), axis=0)
    check(
        np.all(worst <= tol),
        lambda: f"{eid}: reference {ref.tolist()} missed by {worst.tolist()} after {steps} steps (currents {np.round(i, 3).tolist()})",
        f"loop:{task}:{motor}",
    )
    return bool(np.max(np.abs(ref - start)) > 0.02), [task, motor]


def run_switching(case):
    eid = case["spec"]["id"]
    act, task, motor = g.split(eid)
    steps = dict(CC=6000, TC=8000, SC=40000)[task]
    case = dict(case, init=[0, 0, 0], a=4)
    case["ref"] = [r * (0.5 if task == "CC" else 0.3) for r in case["ref"]]
    res = closed_loop(case, steps // 3, steps)
    if res is None:
        return False, ["not reachable"]
    err, ref, start, i = res
    mean = np.abs(np.mean(err, axis=0))
    check(np.all(mean <= 0.04), lambda: f"{eid}: reference {ref.tolist()} missed by {mean.tolist()} in the mean of {len(err)} steps", f"switching:{task}:{motor}")
    return bool(np.max(np.abs(ref - start)) > 0.04), [task, motor]


# --------------------------------------------------------------------------------------------- control_environment
class Recorder:
    """passes everything to the environment and records it"""

    def __init__(self, env):
        self._env, self.log = env, []

    def __getattr__(self, name):
        return getattr(self._env, name)

    def reset(self, **kw):
        out = self._env.reset(**kw)
        self.log.append(("reset",))
        return out

    def step(self, action):
        out = self._env.step(action)
        self.log.append(("step", np.asarray(action, float).tolist(), bool(out[2] or out[3])))
        return out

    def render(self):
        self.log.append(("render",))


@st.composite
def episode_cases(draw):
    return dict(
        id=draw(st.sampled_from(SUPPORTED)),
        n=draw(st.integers(1, 60)),
        length=draw(st.one_of(st.none(), st.integers(1, 30))),
        render=draw(st.booleans()),
        limit=draw(st.sampled_from([1, 1, 10, 30])),
        wrapped=draw(st.booleans()),
    )


def run_episodes(case):
    eid = case["id"]
    act, task, motor = g.split(eid)
    k_lim = case["limit"]

    def make():
        box = {}

        class Every(core.Constraint):
            def __call__(self, state):
                box["n"] = box.get("n", 0) + 1
                return float(k_lim > 1 and box["n"] % k_lim == 0)

            def set_modules(self, ps):
                pass

        kw = dict(constraints=(Every(),), visualization=g.NoVisu())
        if motor == "SCIM":
            kw["physical_system_wrappers"] = (FluxObserver(),)
        env = gem.make(eid, **kw)
        return env

    a, b = make(), make()
    ra = Recorder(a if case["wrapped"] else a.unwrapped)
    rb = b.unwrapped
    ca = gc.GemController.make(a if case["wrapped"] else a.unwrapped, eid, block_diagram=False)
    cb = gc.GemController.make(b, eid, block_diagram=False)
    a.reset(seed=7)
    b.reset(seed=7)
    length = np.inf if case["length"] is None else case["length"]
    ca.control_environment(ra, case["n"], max_episode_length=length, render_env=case["render"])
    # the same by hand
    want = [("reset",)]
    (s, r), _ = rb.reset()
    cb.reset()
    m = episodes = 0
    for _ in range(case["n"]):
        if case["render"]:
            want.append(("render",))
        action = cb.control(s, r)
        (s, r), _, te, tr, _ = rb.step(action)
        want.append(("step", np.asarray(action, float).tolist(), bool(te or tr)))
        m += 1
        if te or tr or m >= length:
            (s, r), _ = rb.reset()
            cb.reset()
            want.append(("reset",))
            m = 0
            episodes += 1
    k = next((k for k, (x, y) in enumerate(zip(ra.log, want)) if x != y), min(len(ra.log), len(want)))
    check(
        ra.log == want,
        lambda: f"{eid}: entry {k} of control_environment is {ra.log[k:k + 1]}, by hand {want[k:k + 1]} ({case})",
        "episodes",
    )
    return episodes > 0 and case["n"] > 3, [task, motor]


# --------------------------------------------------------------------------------------------- visualizations
@st.composite
def visu_cases(draw):
    return dict(
        id=draw(st.sampled_from(SUPPORTED)),
        n=draw(st.integers(1, 25)),
        length=draw(st.one_of(st.none(), st.integers(1, 12))),
        visu=draw(st.sampled_from(["console", "dashboard", "dashboard", "both"])),
        plots=draw(st.lists(st.integers(0, 20), min_size=0, max_size=4, unique=True)),
        interval=draw(st.sampled_from([1, 5, 1000])),
        render=draw(st.booleans()),
        should_plot=draw(st.booleans()),
        plot_references=draw(st.booleans()),
    )


def run_visu(case):
    eid = case["id"]
    motor = g.split(eid)[2]

    shown = {}

    def trajectory(visu, **ckw):
        kw = dict(visualization=visu)
        if motor == "SCIM":
            kw["physical_system_wrappers"] = (FluxObserver(),)
        env = gem.make(eid, **kw)
        env.reset(seed=11)
        rec = Recorder(env)
        if any(isinstance(v, MotorDashboard) for v in (visu if isinstance(visu, list) else [visu])):
            rec.render = env.render
        ctl = gc.GemController.make(env, eid, block_diagram=False, **ckw)
        length = np.inf if case["length"] is None else case["length"]
        dashes = [v for v in (visu if isinstance(visu, list) else [visu]) if isinstance(v, MotorDashboard)]
        refs, step = [], rec.step

        def recorded(action):
            refs.append({k: float(v) for k, v in ctl.controller.references.items()})
            return step(action)

        rec.step = recorded
        ctl.control_environment(rec, case["n"], max_episode_length=length, render_env=case["render"])
        if dashes and ckw:
            dashes[0].force_render()
            own = env.unwrapped
            names, tau = list(own.physical_system.state_names), own.physical_system.tau
            lim = own.limits
            for plot, ax in zip(plots, dashes[0].figure().get_axes()):
                lines = [l for l in ax.get_lines() if len(l.get_xdata()) > 2]
                internal = plot in ctl.controller.referenced_states and plot not in own.reference_names
                if not internal:
                    continue
                drawn = ckw["should_plot"] and ckw["plot_references"]
                check(len(lines) == 1 + drawn, f"{eid}: {len(lines)} data lines for {plot} ({case})", "visu:lines")
                if not drawn:
                    continue
                x, y = (np.asarray(v, float)[: len(refs)] for v in lines[1].get_data())
                want_y = [e[plot] for e in refs]
                check(
                    np.allclose(x, np.arange(len(refs)) * tau, atol=1e-6 * tau)
                    and np.allclose(y, want_y, rtol=1e-9, atol=1e-12, equal_nan=True),
                    lambda: f"{eid}: reference of {plot} shown as {y.tolist()}, the controller requests {want_y} ({case})",
                    "visu:references",
                )
                shown[plot] = True
                if case["render"] and plot in ("i", "i_a", "i_e") and motor != "EESM":
                    high = [l.get_ydata()[0] for l in ax.get_lines() if len(l.get_xdata()) == 2]
                    top = 0.8 * lim[names.index(plot)] * own.observation_space[0].high[names.index(plot)]
                    check(any(np.isclose(h, top) for h in high), lambda: f"{eid}: no line at the highest request {top}: {high}", "visu:max")
        env.close()
        return [e for e in rec.log if e[0] != "render"]

    names = gem.make(eid, visualization=g.NoVisu()).unwrapped.state_names
    plots = list(dict.fromkeys([names[k % len(names)] for k in case["plots"]] + list(CC[motor]) + ["torque"]))
    mk = dict(
        console=lambda: ConsolePrinter(verbose=0),
        dashboard=lambda: MotorDashboard(state_plots=plots, update_interval=case["interval"]),
    )
    mk["both"] = lambda: [mk["console"](), mk["dashboard"]()]
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.printoptions():
            got = trajectory(mk[case["visu"]](), should_plot=case["should_plot"], plot_references=case["plot_references"])
    finally:
        plt.close("all")
    want = trajectory(g.NoVisu())
    k = next((k for k, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
    check(got == want, lambda: f"{eid}: entry {k} with visualizations {got[k:k + 1]}, without {want[k:k + 1]} ({case})", "visu")
    return case["n"] > 3, [case["visu"], motor] + (["references shown"] if shown else [])


SUBS = [
    Sub("act", act_cases(), run_act, quick=600, shards=4),
    Sub("cascade", cascade_cases(), run_cascade, quick=200, thorough=4000, shards=2),
    Sub("loop", loop_cases([i for i in SUPPORTED if i.startswith("Cont") and "-SC-" not in i]), run_loop, quick=120, thorough=3000, shards=6, cpu_s=60),
    Sub("speed", loop_cases([i for i in SUPPORTED if i.startswith("Cont-SC") and "SCIM" not in i]), run_loop, quick=24, thorough=600, shards=8, cpu_s=120),
    Sub("switching", loop_cases([i for i in SUPPORTED if i.startswith("Finite")]), run_switching, quick=24, thorough=600, shards=8, cpu_s=120),
    Sub("episodes", episode_cases(), run_episodes, quick=80, shards=4),
    Sub("visu", visu_cases(), run_visu, quick=40, shards=8, cpu_s=60),
]
