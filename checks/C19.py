"""C19: the building blocks of the controller library implement their control laws."""
import numpy as np
from hypothesis import strategies as st

import gem_controllers as gc
from gym_electric_motor import physical_systems as ps
from gem_controllers.stages import base_controllers as bcs
from lib import gemlib as g
from lib import models as m
from lib.harness import Sub, check

PROPERTY = "C19"
RULE = (
    "base: P, I, PI, PID and three-point controllers with arbitrary gains, indices, sampling time and histories of calls, "
    "integrations and resets against a scalar reference model; non-trivial with at least 4 calls and a non-zero error. "
    "clip: clipping stages of every motor and task, any margin, references inside, on and outside of the limits; "
    "non-trivial if something was limited. feedforward: with the feedforward added, the machine's own equations lose the "
    "speed coupling for arbitrary machine parameters and states; non-trivial for non-zero speed and current. current / "
    "speed: complete current and speed control loops (controller, feedforward, limitation, anti-windup, transformation) of "
    "every drive over arbitrary histories of observations, references and resets against a reference model; non-trivial "
    "if one call was limited and one was not. realise: actions of the output stages applied to the environment yield the "
    "requested voltages. disc: the switching actions for arbitrary voltage references and converters; non-trivial if two "
    "different actions were selected. stages: input stage and transformation stage are inverses."
)

V = st.one_of(st.sampled_from([0, 1000, -1000]), g.whole(-1000, 1000))
CONT = [i for i in g.IDS if i.startswith("Cont") and "DFIM" not in i]
DCF = [i for i in g.IDS if i.startswith("Finite") and g.split(i)[2] in g.DC]
CC = gc.parameter_reader.currents
VV = gc.parameter_reader.voltages


def tol(*a):
    return 1e-9 * max([1e-9] + [float(np.max(np.abs(x))) if np.size(x) else 0.0 for x in a])


def near(a, b, *scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol(a, b, *scale)))


# --------------------------------------------------------------------------------------------- base controllers
@st.composite
def base_cases(draw):
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["P", "I", "PI", "PID", "ThreePoint"]))
    gain = st.one_of(st.just(0.0), g.log(1e-3, 1e3))
    ops = st.one_of(
        st.tuples(st.just("call"), st.lists(V, min_size=6, max_size=6), st.lists(V, min_size=n, max_size=n)),
        st.tuples(st.just("call"), st.lists(V, min_size=6, max_size=6), st.lists(V, min_size=n, max_size=n)),
        st.tuples(st.just("int"), st.lists(V, min_size=n, max_size=n), st.lists(V, min_size=n, max_size=n)),
        st.tuples(st.just("add"), st.lists(V, min_size=n, max_size=n)),
        st.tuples(st.just("reset")),
        st.tuples(st.just("same")),
    ).map(list)
    return dict(
        kind=kind,
        task=draw(st.sampled_from(["CC", "SC", "TC", "FC"])),
        p=[draw(gain) for _ in range(n)],
        i=[draw(gain) for _ in range(n)],
        d=[draw(gain) for _ in range(n)],
        idx=draw(st.lists(st.integers(0, 5), min_size=n, max_size=n, unique=True)),
        tau=draw(st.sampled_from([1e-5, 1e-4, 0.01, 1])),
        h=[draw(st.integers(0, 300)) for _ in range(n)],
        ops=draw(st.lists(ops, min_size=5, max_size=20)),
    )


def run_base(case):
    n, kind, tau = len(case["p"]), case["kind"], case["tau"]
    c = bcs.get(kind)(case["task"])
    p, i, d = (np.array(case[k]) for k in "pid")
    idx = np.array(case["idx"])
    h = np.array(case["h"]) / 50
    hi, lo, idle = np.arange(n) + 1.0, -np.arange(n) - 2.0, np.zeros(n)
    if kind == "ThreePoint":
        c.high_action, c.low_action, c.idle_action = hi, lo, idle
        c.hysteresis, c.referenced_state_indices = h, idx
    else:
        if kind != "I":
            c.p_gain = p.copy()
        if kind != "P":
            c.i_gain, c.tau = i.copy(), tau
        if kind == "PID":
            c.d_gain = d.copy()
        c.state_indices = idx
    c.reset()
    integ, last = np.zeros(n), np.zeros(n)
    calls = err = 0
    prev = None
    for op in case["ops"]:
        if op[0] == "same":
            if prev is None:
                continue
            op = prev
        if op[0] == "call":
            prev = op
            x, r = np.array(op[1]) / 50, np.array(op[2]) / 50
            x0, r0 = x.copy(), r.copy()
            out = np.array(c(x, r), float)
            check(np.array_equal(x, x0) and np.array_equal(r, r0), f"{kind} controller changed its inputs", "base:inputs")
            e = r - x[idx]
            if kind == "ThreePoint":
                want = np.where(x[idx] + h < r, hi, np.where(x[idx] - h > r, lo, idle))
            else:
                want = np.zeros(n)
                if kind != "I":
                    want = want + p * e
                if kind != "P":
                    want = want + i * integ
                if kind == "PID":
                    want = want + d * (e - last) / tau
                    last = e
            check(
                near(out, want, p * e, i * integ, d * e / tau if kind == "PID" else 0),
                lambda: f"{kind} controller: {out.tolist()} instead of {want.tolist()}",
                f"base:{kind}",
            )
            calls += 1
            err += bool(np.any(e))
        elif op[0] == "int" and kind not in ("P", "ThreePoint"):
            s, r = np.array(op[1]) / 50, np.array(op[2]) / 50
            c.integrate(s, r)
            integ = integ + (r - s) * tau
        elif op[0] == "add" and kind not in ("P", "ThreePoint"):
            delta = np.array(op[1]) * tau
            c.integrator = c.integrator + delta
            integ = integ + delta
        elif op[0] == "reset":
            c.reset()
            integ, last = np.zeros(n), np.zeros(n)
        if kind not in ("P", "ThreePoint"):
            check(
                near(c.integrator, integ, 20 * tau), lambda: f"integrator {c.integrator} instead of {integ}", "base:integrator"
            )
    return calls >= 4 and err > 0, [kind, f"signals {n}"]


# --------------------------------------------------------------------------------------------- environments
@st.composite
def drives(draw, ids):
    spec = draw(g.specs(ids, features=("mp", "tau", "load"), p_feature=0.5))
    act, task, motor = g.split(spec["id"])
    if motor == "SCIM":
        spec["wrappers"] = [dict(kind="flux")]
    if motor in ("PermExDc", "SeriesDc", "ShuntDc") and draw(st.integers(0, 3)) == 0:
        spec["converter"] = draw(st.sampled_from(["1QC", "2QC", "4QC"]))
    if draw(st.integers(0, 3)) == 0:
        u, i = draw(st.integers(20, 400)), draw(st.integers(10, 300))
        names = {n: float(u) for n in ["u"]} if motor in ("PermExDc", "SeriesDc", "ShuntDc") else {}
        if motor == "ExtExDc":
            names = {"u_a": float(u), "u_e": float(draw(st.integers(20, 400)))}
        lim = {**names, **({"i": float(i)} if motor in g.SYNC + g.IND + ["PermExDc", "SeriesDc"] else {})}
        if motor in g.SYNC + g.IND:
            lim["u"] = float(u)
        if lim:
            spec["limits"] = lim
    return spec


def build(spec, **kw):
    s = {k: v for k, v in spec.items() if k != "converter"}
    act = g.split(s["id"])[0]
    if spec.get("converter"):
        kw["converter"] = getattr(ps, f"{act}{spec['converter']}")()
    return g.build(s, **kw)


def machine(env, spec):
    motor = g.split(spec["id"])[2]
    return m.Machine(motor, dict(env.physical_system.electrical_motor.motor_parameter))


def observation(env, vals):
    """arbitrary admissible observation"""
    lo, hi = env.observation_space[0].low, env.observation_space[0].high
    out = np.empty(len(lo))
    for k, name in enumerate(env.state_names):
        a, b = max(lo[k], -1.0), min(hi[k], 1.0)
        if name == "psi_abs":
            a = 0.02
        v = vals[k % len(vals)] * (1 if k < len(vals) else -1)
        out[k] = a + (b - a) * (v + 1000) / 2000
    return out


def ranges(env, names, margin=0.0):
    idx = [env.state_names.index(x) for x in names]
    lim = env.limits[idx] * (1 - margin)
    return env.observation_space[0].low[idx] * lim, env.observation_space[0].high[idx] * lim, env.limits[idx]


def limited(kind, v, lo, hi, lim, margin):
    """nearest admissible value; kind abs, sq (vector length), comb (two components by length, the third absolute)"""
    if kind == "abs":
        return np.minimum(np.maximum(v, lo), hi)
    if kind == "comb":
        return np.r_[limited("sq", v[:2], lo[:2], hi[:2], lim[:2], margin), limited("abs", v[2:], lo[2:], hi[2:], 0, 0)]
    length = float(np.hypot(*(v / lim)))
    return v * ((1 - margin) / length) if length > 1 - margin else v


def clip_kind(motor):
    return "comb" if motor == "EESM" else "sq" if motor in g.SYNC + g.IND else "abs"


# --------------------------------------------------------------------------------------------- clipping
@st.composite
def clip_cases(draw):
    spec = draw(drives(CONT + DCF))
    return dict(
        spec=spec,
        task=draw(st.sampled_from(["CC", "TC", "SC"])),
        margin=draw(st.sampled_from([0.0, 0.0, 0.2, 0.5, 0.05])),
        refs=draw(st.lists(st.tuples(st.lists(V, min_size=3, max_size=3), st.sampled_from([0.1, 1, 1, 3, 50])).map(list), min_size=1, max_size=8)),
    )  # fmt: skip


def run_clip(case):
    spec, task, margin = case["spec"], case["task"], case["margin"]
    motor = g.split(spec["id"])[2]
    env = build(spec)
    kind = "abs" if task == "SC" else clip_kind(motor)
    cls = dict(abs="AbsoluteClippingStage", sq="SquaredClippingStage", comb="CombinedClippingStage")[kind]
    stage = getattr(gc.stages.clipping_stages, cls)(task)
    stage.tune(env, spec["id"], margin=margin)
    names = dict(CC=VV[motor], TC=CC[motor], SC=["torque"])[task]
    lo, hi, lim = ranges(env, names, margin)
    x = observation(env, [0])
    hit = 0
    for vals, scale in case["refs"]:
        ref = np.array(vals[: len(names)]) / 1000 * lim * scale
        r0 = ref.copy()
        out = np.array(stage(x, ref), float)
        diff = np.array(stage.clipping_difference, float)
        check(np.array_equal(ref, r0), "the clipping stage changed its input", "clip:inputs")
        want = limited(kind, ref, lo, hi, lim, margin)
        check(near(out, want), lambda: f"{cls}({task}): {ref} limited to {out} instead of {want}", f"clip:{kind}")
        check(
            np.array_equal(diff, ref - out), lambda: f"{cls}: reported difference {diff} for {ref} -> {out}", "clip:report"
        )
        check(
            np.array_equal(np.asarray(stage.clipped), ref - out != 0), lambda: f"{cls}: clipped = {stage.clipped}", "clip:flag"
        )
        again = np.array(stage(x, out), float)
        check(near(again, out), lambda: f"{cls}: not idempotent: {out} -> {again}", "clip:idempotent")
        hit += bool(np.any(diff))
    stage.reset()
    check(not np.any(stage.clipping_difference) and not np.any(stage.clipped), "clipped after a reset", "clip:reset")
    if kind != "comb":
        a = stage.action_range
        check(near(a[0], lo if kind == "abs" else -lim * (1 - margin)) and near(a[1], hi if kind == "abs" else lim * (1 - margin)),
              lambda: f"{cls}: action range {a}", "clip:range")  # fmt: skip
    return hit > 0, [kind, task]


# --------------------------------------------------------------------------------------------- feedforward
def elec(env, mach, x):
    """electrical state for Machine.ode from a physical state vector; induction machine: flux frame -> stator frame"""
    s = dict(zip(env.state_names, x))
    mo = mach.motor
    if mo in ("PermExDc", "SeriesDc"):
        return np.array([s["i"]])
    if mo in ("ShuntDc", "ExtExDc"):
        return np.array([s["i_a"], s["i_e"]])
    if mo in ("PMSM", "SynRM"):
        return np.array([s["i_sd"], s["i_sq"], s["epsilon"]])
    if mo == "EESM":
        return np.array([s["i_sd"], s["i_sq"], s["i_e"], s["epsilon"]])
    return np.r_[
        m.rot(np.array([s["i_sd"], s["i_sq"]]), s["psi_angle"]),
        m.rot(np.array([s["psi_abs"], 0.0]), s["psi_angle"]),
        s["epsilon"],
    ]


def deriv(env, mach, x, u):
    """current derivatives in the frame of the controller for the controller's voltages u"""
    s = dict(zip(env.state_names, x))
    w = s["omega"]
    z = elec(env, mach, x)
    n = len(CC[mach.motor])
    if mach.motor != "SCIM":
        return mach.ode(z, np.asarray(u, float), w)[:n]
    ang = s["psi_angle"]
    dz = mach.ode(z, m.rot(np.asarray(u, float), ang), w)
    psi, dpsi = z[2:4], dz[2:4]
    w_psi = (psi[0] * dpsi[1] - psi[1] * dpsi[0]) / (psi @ psi)  # angular velocity of the flux
    di = m.rot(dz[:2], -ang)
    i = np.array([s["i_sd"], s["i_sq"]])
    return di - w_psi * np.array([-i[1], i[0]])


def decoupled(env, mach, x, v):
    """current derivatives of the decoupled machine for the controller output v"""
    s = dict(zip(env.state_names, x))
    mp = mach.mp
    mo = mach.motor
    if mo == "EESM":
        sg = 1 - 1.5 * mp["l_m"] ** 2 / (mp["l_d"] * mp["l_e"])
        return np.array(
            [
                (v[0] - mp["r_s"] * s["i_sd"] / sg) / mp["l_d"],
                (v[1] - mp["r_s"] * s["i_sq"]) / mp["l_q"],
                (v[2] - mp["r_e"] * s["i_e"] / sg) / mp["l_e"],
            ]
        )
    if mo == "SCIM":
        ls, lr, lm = mp["l_m"] + mp["l_sigs"], mp["l_m"] + mp["l_sigr"], mp["l_m"]
        sl = ls - lm**2 / lr
        r = mp["r_s"] + mp["r_r"] * (lm / lr) ** 2
        return (np.asarray(v) - r * np.array([s["i_sd"], s["i_sq"]])) / sl
    x0 = np.array(x, float)
    x0[env.state_names.index("omega")] = 0.0
    return deriv(env, mach, x0, v)


def decoupling_voltage(env, mach, x, v):
    """u with deriv(u) = decoupled(v): the machine equations are affine in u"""
    n = len(v)
    d0 = deriv(env, mach, x, np.zeros(n))
    A = np.array([deriv(env, mach, x, e) - d0 for e in np.eye(n)]).T
    return np.linalg.solve(A, decoupled(env, mach, x, v) - d0)


def ff_stage(motor):
    return {"SCIM": gc.stages.EMFFeedforwardInd, "EESM": gc.stages.EMFFeedforwardEESM}.get(motor, gc.stages.EMFFeedforward)()


@st.composite
def ff_cases(draw):
    spec = draw(drives(CONT + DCF))
    return dict(spec=spec, steps=draw(st.lists(st.tuples(st.lists(V, min_size=8, max_size=8), st.lists(V, min_size=3, max_size=3)).map(list), min_size=1, max_size=5)))  # fmt: skip


def run_ff(case):
    spec = case["spec"]
    motor = g.split(spec["id"])[2]
    env = build(spec)
    mach = machine(env, spec)
    stage = ff_stage(motor)
    stage.tune(env, spec["id"])
    stage.reset()
    nz = 0
    for xs, vs in case["steps"]:
        x = observation(env, xs) * env.limits
        n = len(VV[motor])
        v = np.array(vs[:n]) / 1000 * ranges(env, VV[motor])[2]
        x0, v0 = x.copy(), v.copy()
        u = np.array(stage(x, v), float)
        check(np.array_equal(x, x0) and np.array_equal(v, v0), "the feedforward stage changed its inputs", "ff:inputs")
        want = decoupling_voltage(env, mach, x, v)
        check(
            u.shape == want.shape and np.all(np.abs(u - want) <= 1e-7 * (np.max(np.abs(want)) + np.max(np.abs(v)) + 1e-6)),
            lambda: f"feedforward of {motor}: {v} -> {u}, decoupling needs {want}",
            f"ff:{motor}",
        )
        s = dict(zip(env.state_names, x))
        nz += s["omega"] != 0 and any(s[i] for i in CC[motor])
    return nz > 0, [motor]


# --------------------------------------------------------------------------------------------- complete control loops
def three_point_range(c, lo, hi, what):
    """a tuned three point controller uses the whole range of its output, and nothing while the error is small"""
    check(
        np.allclose(c.high_action, hi) and np.allclose(c.low_action, lo) and np.all(np.asarray(c.idle_action) == 0) and np.all(np.asarray(c.hysteresis) > 0),
        lambda: f"{what}: three point controller with the outputs {c.low_action}, {c.idle_action}, {c.high_action} and the hysteresis {c.hysteresis}; range {lo} {hi}",
        "three-point:range",
    )


def law(kind, c, x, ref, idx, state):
    e = ref - x[idx]
    if kind == "ThreePoint":
        h = c.hysteresis
        return np.where(x[idx] + h < ref, c.high_action, np.where(x[idx] - h > ref, c.low_action, c.idle_action)), e
    v = c.p_gain * e
    if kind != "P":
        v = v + c.i_gain * state["I"]
    if kind == "PID":
        v = v + c.d_gain * (e - state["last"]) / c.tau
        state["last"] = e
    return v, e


NEAR = st.sampled_from([1e-5, 1e-4, 1e-3, 0.01, 0.1, 1])
STEP = st.tuples(st.lists(V, min_size=8, max_size=8), st.lists(V, min_size=3, max_size=3), NEAR).map(list)
HIST = st.lists(st.one_of(STEP, STEP, STEP, STEP, st.just("reset"), st.just("again")), min_size=4, max_size=14)


@st.composite
def current_cases(draw):
    spec = draw(drives([i for i in CONT + DCF if "-CC-" in i]))
    motor = g.split(spec["id"])[2]
    kinds = ["PI", "PI", "P", "PID"] + (["ThreePoint"] if spec["id"].startswith("Finite") or motor in g.DC else [])
    return dict(
        spec=spec,
        kind=draw(st.sampled_from(kinds)),
        dec=draw(st.booleans()),
        a=draw(st.sampled_from([4, 4, 2, 10, 100])),
        hist=draw(HIST),
    )


def run_current(case):
    spec, kind = case["spec"], case["kind"]
    act, task, motor = g.split(spec["id"])
    env = build(spec)
    mach = machine(env, spec)
    ctl = gc.GemController.make(
        env, spec["id"], decoupling=case["dec"], base_current_controller=kind, a=case["a"], block_diagram=False
    )
    ctl.reset()
    inner = ctl.controller
    base = inner.current_base_controller
    idx = [env.state_names.index(i) for i in CC[motor]]
    n = len(idx)
    lo, hi, lim = ranges(env, VV[motor])
    if kind == "ThreePoint":
        three_point_range(base, lo, hi, spec["id"])
    ref_idx = [env.state_names.index(i) for i in env.reference_names]
    if ref_idx != idx:
        return False, ["other references"]
    tau = env.physical_system.tau
    fresh = lambda: dict(I=np.zeros(n), last=np.zeros(n))  # noqa: E731
    state = fresh()
    seen = [0, 0]
    prev = None
    for step in case["hist"]:
        if step == "reset":
            ctl.reset()
            state = fresh()
            continue
        if step == "again":
            if prev is None:
                continue
            step = prev
        prev = step
        obs = observation(env, step[0])
        # references near the measured current exercise the unlimited branch
        r = obs[ref_idx] * (step[2] < 1) + np.array(step[1][:n]) / 1000 * step[2]
        o0, r0 = obs.copy(), r.copy()
        act_ = ctl.control(obs, r)
        check(np.array_equal(obs, o0) and np.array_equal(r, r0), "the controller changed the observation", "current:inputs")
        x, ref = obs * env.limits, r * env.limits[ref_idx]
        v, e = law(kind, base, x, ref, idx, state)
        if case["dec"]:
            v = decoupling_voltage(env, mach, x, v)
        out = limited(clip_kind(motor), v, lo, hi, lim, 0.0)
        # close to the limit rounding decides about the anti-windup: stop there
        if motor in g.DC:
            edge = np.minimum(np.abs(v - lo) / lim, np.abs(v - hi) / lim)
        else:
            edge = np.r_[abs(np.hypot(*(v[:2] / lim[:2])) - 1), np.minimum(np.abs(v[2:] - lo[2:]), np.abs(v[2:] - hi[2:])) / lim[2:]]
        if np.any(edge < 1e-7) or (kind == "ThreePoint" and np.any(np.abs(np.abs(e) - base.hysteresis) < 1e-9 * env.limits[idx])):
            break
        cut = np.abs(out - v) > 1e-9 * lim
        seen[int(np.any(cut))] += 1
        state["I"] = state["I"] + tau * e * ~cut
        scale = max(1.0, float(np.max(np.abs(v) / lim)))
        if act == "Cont":
            if motor in g.DC:
                want = out / lim
            else:
                ang = x[env.state_names.index("psi_angle" if motor == "SCIM" else "epsilon")]
                om = x[env.state_names.index("omega")]
                adv = inner.transformation_stage.advance_factor
                abc = m.inv_park(out[:2], ang + adv * tau * mach.mp["p"] * om)
                olim = ranges(env, gc.parameter_reader.get_output_voltages(motor, act))[2]
                want = np.r_[abc, out[2:]] / olim
            check(
                np.shape(act_) == want.shape and np.all(np.abs(act_ - want) <= 1e-6 * scale),
                lambda: f"{spec['id']} ({kind}): action {act_} instead of {want} (voltages {out} of {v})",
                f"current:{motor}",
            )
            check(env.action_space.contains(np.asarray(act_, env.action_space.dtype)) or np.all(np.abs(act_) <= 1 + 1e-9),
                  f"action {act_} not admissible", "current:action")  # fmt: skip
        else:
            # the selected switching state must be the one for the voltage reference of the model
            want = disc_want(env, out, lo, hi)
            got = np.atleast_1d(act_)
            ok = [w is None or w == int(a) for w, a in zip(want, got)]
            check(
                env.action_space.contains(act_) and all(ok),
                lambda: f"{spec['id']}: switching {act_} for voltages {out}",
                f"current:{motor}",
            )
    # after a reset the controller behaves as a new one
    ctl.reset()
    other = gc.GemController.make(
        env, spec["id"], decoupling=case["dec"], base_current_controller=kind, a=case["a"], block_diagram=False
    )
    other.reset()
    for step in case["hist"]:
        if not isinstance(step, str):
            obs, r = observation(env, step[0]), np.array(step[1][:n]) / 1000
            a, b = ctl.control(obs, r), other.control(obs, r)
            check(np.array_equal(a, b), lambda: f"after a reset {a}, a new controller {b}", "current:reset")
    return min(seen) > 0 or (act == "Finite" and sum(seen) > 1), [motor, kind, act, f"limited {min(seen[1], 1)}"]


def disc_want(env, v, lo, hi):
    """extreme requests must select the extreme switching state, requests of a vanishing voltage the idle one"""
    out = []
    space = env.action_space
    ns = space.nvec if hasattr(space, "nvec") else [space.n]
    for k, n in enumerate(ns):
        two = n == 2
        if v[k] >= hi[k] - 1e-9:
            out.append(1)
        elif v[k] <= lo[k] - 1e-9 or (v[k] <= lo[k] + 1e-9 and lo[k] < 0):
            out.append(0 if two else 2)
        elif abs(v[k]) < 1e-3 * hi[k]:
            out.append(0)
        else:
            out.append(None)
    return out


# --------------------------------------------------------------------------------------------- speed control
@st.composite
def speed_cases(draw):
    spec = draw(drives([i for i in CONT + DCF if "-SC-" in i]))
    return dict(
        spec=spec,
        kind=draw(st.sampled_from(["PI", "PI", "P", "PID", "ThreePoint"])),
        a=draw(st.sampled_from([4, 4, 2, 10, 100])),
        hist=draw(HIST),
    )


def run_speed(case):
    spec, kind = case["spec"], case["kind"]
    motor = g.split(spec["id"])[2]
    env = build(spec)
    cur = gc.PICurrentController(env, spec["id"])
    trq = gc.TorqueController(env, spec["id"], current_controller=cur)
    ctl = gc.PISpeedController(env, spec["id"], torque_controller=trq, base_speed_controller=kind)
    cur.tune(env, spec["id"], a=case["a"])
    ctl.tune(env, spec["id"], tune_torque_controller=False, a=case["a"])
    base = ctl.speed_control_stage
    base.reset()
    idx = [env.state_names.index("omega")]
    lo, hi, lim = ranges(env, ["torque"])
    if kind == "ThreePoint":
        three_point_range(base, lo, hi, spec["id"])
    tau = env.physical_system.tau
    fresh = lambda: dict(I=np.zeros(1), last=np.zeros(1))  # noqa: E731
    state = fresh()
    seen = [0, 0]
    prev = None
    for step in case["hist"]:
        if step == "reset":
            base.reset()
            state = fresh()
            continue
        if step == "again":
            if prev is None:
                continue
            step = prev
        prev = step
        x = observation(env, step[0]) * env.limits
        ref = x[idx] * (step[2] < 1) + np.array(step[1][:1]) / 1000 * step[2] * env.limits[idx]
        x0, r0 = x.copy(), ref.copy()
        out = np.array(ctl.speed_control(x, ref), float)
        check(np.array_equal(x, x0) and np.array_equal(ref, r0), "the speed controller changed its inputs", "speed:inputs")
        v, e = law(kind, base, x, ref, idx, state)
        want = limited("abs", v, lo, hi, lim, 0)
        if np.any(np.minimum(np.abs(v - lo), np.abs(v - hi)) < 1e-7 * lim) or (
            kind == "ThreePoint" and np.any(np.abs(np.abs(e) - base.hysteresis) < 1e-9 * env.limits[idx])
        ):
            break
        cut = want != v
        seen[int(np.any(cut))] += 1
        state["I"] = state["I"] + tau * e * ~cut
        check(
            near(out, want, np.minimum(np.abs(v), 1e3 * lim)),
            lambda: f"{spec['id']} ({kind}): torque reference {out} instead of {want} (unlimited {v}, error {e})",
            f"speed:{kind}",
        )
        check(np.all(out >= lo - 1e-9) and np.all(out <= hi + 1e-9), f"torque reference {out} not within {lo} {hi}", "speed:range")
    return min(seen) > 0 or (kind == "ThreePoint" and sum(seen) > 1), [motor, kind]


# --------------------------------------------------------------------------------------------- tuning
@st.composite
def tune_cases(draw):
    return dict(
        spec=draw(drives(CONT + DCF)),
        a=draw(st.sampled_from([2, 4, 4, 6, 10, 37])),
        kind=draw(st.sampled_from(["P", "PI", "PID"])),
    )


def run_tune(case):
    """symmetrical optimum: k_p = L / (a tau), k_i = k_p / (a^2 tau); speed: k_p = J / (a T), T of the current loop"""
    spec, a, kind = case["spec"], case["a"], case["kind"]
    motor = g.split(spec["id"])[2]
    env = build(spec)
    mp = env.physical_system.electrical_motor.motor_parameter
    tau = env.physical_system.tau
    L = {
        "PermExDc": lambda: [mp["l_a"]],
        "ShuntDc": lambda: [mp["l_a"]],
        "SeriesDc": lambda: [mp["l_a"] + mp["l_e"]],
        "ExtExDc": lambda: [mp["l_a"], mp["l_e"]],
        "PMSM": lambda: [mp["l_d"], mp["l_q"]],
        "SynRM": lambda: [mp["l_d"], mp["l_q"]],
        "EESM": lambda: [mp["l_d"], mp["l_q"], mp["l_e"]],
        "SCIM": lambda: [mp["l_sigs"] + mp["l_sigr"] * mp["l_m"] / (mp["l_sigr"] + mp["l_m"])] * 2,
    }[motor]
    c = bcs.get(kind)("CC")
    c.tune(env, spec["id"], a)
    c.reset()
    check([env.state_names[int(k)] for k in c.state_indices] == CC[motor], f"controls {c.state_indices}", "tune:states")
    want = np.array(L()) / (a * tau)
    check(near(c.p_gain, want), lambda: f"{motor}: p gain {c.p_gain} instead of {want}", f"tune:p:{motor}")
    if kind != "P":
        check(near(c.i_gain, c.p_gain / (a * a * tau)), lambda: f"{motor}: i gain {c.i_gain}", f"tune:i:{motor}")
        check(c.tau == tau, f"sampling time {c.tau}", "tune:tau")
    lo, hi, _ = ranges(env, VV[motor])
    check(near(c.action_range[0], lo) and near(c.action_range[1], hi), f"range {c.action_range}", "tune:range")
    s = bcs.get(kind)("SC")
    t_n = tau * 7.5
    s.tune(env, spec["id"], a=a, t_n=t_n)
    J = env.physical_system.mechanical_load.j_total
    check(near(s.p_gain, [J / (a * t_n)]), lambda: f"{motor}: speed p gain {s.p_gain} for J {J}", "tune:speed:p")
    check([env.state_names[int(k)] for k in s.state_indices] == ["omega"], "controls another state", "tune:speed:state")
    return True, [motor, kind]


# --------------------------------------------------------------------------------------------- stages: conversions
@st.composite
def stage_cases(draw):
    return dict(
        spec=draw(drives(CONT)),
        steps=draw(st.lists(STEP, min_size=1, max_size=5)),
        adv=draw(st.sampled_from([None, 0.0, 0.5, 1.5])),
    )


def run_stage(case):
    spec = case["spec"]
    act, task, motor = g.split(spec["id"])
    env = build(spec)
    inp = gc.stages.InputStage()
    inp.tune(env, spec["id"])
    out_stage = gc.stages.ContOutputStage()
    out_stage.tune(env, spec["id"])
    ref_idx = [env.state_names.index(i) for i in env.reference_names]
    olim = ranges(env, gc.parameter_reader.get_output_voltages(motor, act))[2]
    tr = None
    if motor not in g.DC:
        tr = gc.stages.AbcTransformation()
        tr.tune(env, spec["id"])
        if case["adv"] is not None:
            tr.advance_factor = case["adv"]
    adv = 0.5 if case["adv"] is None else case["adv"]
    tau = env.physical_system.tau
    nz = 0
    for xs, rs, _ in case["steps"]:
        obs = observation(env, xs)
        r = np.array((rs * 2)[: len(ref_idx)]) / 1000
        x = obs.copy()
        ref = np.array(inp(x, r), float)
        check(near(x, obs * env.limits), "input stage: states not denormalised", "stage:input")
        check(near(ref, r * env.limits[ref_idx]), lambda: f"input stage: reference {r} -> {ref}", "stage:reference")
        if tr is not None:
            n = len(VV[motor])
            v = np.array(rs[:n]) / 1000 * ranges(env, VV[motor])[2]
            x0, v0 = x.copy(), v.copy()
            abc = np.array(tr(x, v), float)
            check(np.array_equal(x, x0) and np.array_equal(v, v0), "the transformation changed its inputs", "stage:abc")
            ang = x[env.state_names.index("psi_angle" if motor == "SCIM" else "epsilon")]
            p = env.physical_system.electrical_motor.motor_parameter["p"]
            ang = ang + adv * tau * p * x[env.state_names.index("omega")]
            back = m.park(abc[:3], ang)
            check(
                near(back, v[:2], olim) and abs(np.sum(abc[:3])) <= tol(abc, olim) and near(abc[3:], v[2:]),
                lambda: f"{motor}: dq voltages {v} became {abc}, which are {back} in the advanced frame",
                "stage:abc",
            )
            v = abc
        else:
            v = np.array(rs[: len(olim)]) / 1000 * olim
        v0 = v.copy()
        a = np.array(out_stage(x, v), float)
        check(np.array_equal(v, v0), "the output stage changed its input", "stage:output")
        check(near(a * olim, v, olim), lambda: f"output stage: {v} -> {a}", "stage:output")
        nz += bool(np.any(v))
    return nz > 0, [motor]


# --------------------------------------------------------------------------------------------- realised voltages
@st.composite
def real_cases(draw):
    spec = draw(g.specs([i for i in CONT], features=("mp", "tau", "load"), p_feature=0.4))
    if g.split(spec["id"])[2] == "SCIM":
        spec["wrappers"] = [dict(kind="flux")]
    spec["solver"] = "euler"
    return dict(spec=spec, steps=draw(st.lists(st.lists(V, min_size=3, max_size=3), min_size=1, max_size=6)))


def run_real(case):
    """with a supply that fits the voltage limits the requested voltages appear at the motor"""
    spec = dict(case["spec"])
    act, task, motor = g.split(spec["id"])
    probe = build(spec)
    u = float(probe.limits[probe.state_names.index(VV[motor][0])])
    spec["supply"] = dict(kind="ideal", u=u if motor in g.DC else 2 * u)
    env = build(spec, constraints=())
    names = list(gc.parameter_reader.get_output_voltages(motor, act))
    stage = gc.stages.ContOutputStage()
    stage.tune(env, spec["id"])
    seen = [n if n != "u_sup" else "u_e" for n in names]
    sidx = [env.state_names.index(n) for n in seen]
    lo, hi, lim = ranges(env, VV[motor])
    env.reset(seed=1)
    tr = None
    if motor not in g.DC:
        tr = gc.stages.AbcTransformation()
        tr.tune(env, spec["id"])
    done = 0
    x = observation(env, [0]) * env.limits
    for rs in case["steps"]:
        v = limited(clip_kind(motor), np.array(rs[: len(lim)]) / 1000 * lim, lo, hi, lim, 0)
        out = tr(x, v) if tr is not None else v
        a = np.asarray(stage(x, out))
        (obs, _), _, term, _, _ = env.step(a)
        full = obs * env.limits
        if not np.all(np.isfinite(full)):
            break
        got = full[sidx]
        check(
            near(got, out, lim),
            lambda: f"{spec['id']}: voltages {out} requested, action {a}, voltages {got} at the motor",
            f"real:{motor}",
        )
        x = full
        done += 1
    return done > 0 and any(any(r) for r in case["steps"]), [motor]


# --------------------------------------------------------------------------------------------- switching actions
@st.composite
def disc_cases(draw):
    motor = draw(st.sampled_from(g.DC))
    spec = dict(id=f"Finite-{draw(st.sampled_from(['SC', 'TC', 'CC']))}-{motor}-v0")
    if motor == "ExtExDc":
        spec["subs"] = [draw(st.sampled_from([1, 2, 4])), draw(st.sampled_from([1, 2, 4]))]
    else:
        spec["converter"] = draw(st.sampled_from(["1QC", "2QC", "4QC"]))
    return dict(spec=spec, refs=draw(st.lists(st.lists(st.one_of(V, V.map(lambda v: v * 3)), min_size=2, max_size=2), min_size=2, max_size=10)))  # fmt: skip


def run_disc(case):
    spec = dict(case["spec"])
    motor = g.split(spec["id"])[2]
    subs = spec.pop("subs", None)
    kw = {}
    if subs:
        kw["converter"] = ps.FiniteMulti([getattr(ps, f"Finite{s}QC")() for s in subs])
    env = build(spec, **kw)
    kinds = subs or [int(spec["converter"][0])]
    stage = gc.stages.DiscOutputStage()
    stage.tune(env, spec["id"])
    stage.reset()
    lo, hi, lim = ranges(env, VV[motor])
    x = observation(env, [0])
    conv = env.physical_system.converter
    sel = []
    rows = []
    for rs in case["refs"]:
        v = np.array(rs[: len(lim)]) / 1000 * lim
        v0 = v.copy()
        a = stage(x, v)
        check(np.array_equal(v, v0), "the output stage changed its input", "disc:inputs")
        check(env.action_space.contains(a), lambda: f"{a!r} is not an element of {env.action_space}", "disc:valid")
        for sign in (1.0, -1.0):
            conv.reset()
            for t in conv.set_action(a, 0.0):
                u = conv.convert([sign] * len(lim), t)
            rows.append((sign, v, np.array(u, float)))
        arr = np.atleast_1d(a)
        sel.append(tuple(int(k) for k in arr))
        for k, q in enumerate(kinds):
            up, un = rows[-2][2][k], rows[-1][2][k]
            msg = lambda: f"{spec} {subs}: voltage {v[k]} of +-{lim[k]} -> action {a} -> {up} / {un}"  # noqa: E731
            if v[k] >= hi[k]:
                check(up == 1 and (un == 1 or q == 1), msg, "disc:high")
            if v[k] <= -lim[k]:
                check(up == (-1 if q == 4 else 0) and un == (-1 if q == 4 else 0 if q == 2 else un), msg, "disc:low")
            if abs(v[k]) < 1e-3 * lim[k]:
                check(up == 0, msg, "disc:zero")
    for s1, v1, u1 in rows:
        for s2, v2, u2 in rows:
            if s1 == s2:
                for k in range(len(kinds)):
                    check(
                        not (v1[k] <= v2[k] and u1[k] > u2[k]),
                        lambda: f"{spec} {subs}: {v1[k]} V yields {u1[k]}, the larger {v2[k]} V only {u2[k]}",
                        "disc:monotone",
                    )
    return len(set(sel)) > 1, [motor] + [f"{q}QC" for q in kinds]


SUBS = [
    Sub("base", base_cases(), run_base, 3000, 60000, shards=2),
    Sub("clip", clip_cases(), run_clip, 1200, 20000, shards=2),
    Sub("feedforward", ff_cases(), run_ff, 1200, 20000, shards=2),
    Sub("current", current_cases(), run_current, 1600, 30000, shards=4),
    Sub("speed", speed_cases(), run_speed, 800, 15000, shards=2),
    Sub("tune", tune_cases(), run_tune, 500, 8000),
    Sub("stages", stage_cases(), run_stage, 600, 10000),
    Sub("realise", real_cases(), run_real, 600, 10000, shards=2),
    Sub("disc", disc_cases(), run_disc, 800, 10000),
]
