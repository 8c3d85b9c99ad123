"""C11: all coordinate representations of a reported state describe the same state."""
import math

import numpy as np
from hypothesis import strategies as st

import gym_electric_motor as gem
from gym_electric_motor import physical_systems as ps
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, check

PROPERTY = "C11"
RULE = (
    "transform: random vectors and angles; non-trivial if the vector and the angle are non-zero. report: three-phase "
    "drives of all types with action histories and resets; every reported state is checked against independent "
    "transformations and the integrated state of the solver; non-trivial if at least 3 steps with a non-zero current. "
    "dqact: drives with dq actions against the same drive with the transformed phase actions; non-trivial if at least "
    "3 steps and the rotor turns."
)
AC = g.SYNC + g.IND
_SYS = {}


def run_transform(case):
    v2, v3, e1, e2, p = case["v2"], case["v3"], case["e1"], case["e2"], case["p"]
    T = ps.ThreePhaseMotor
    s = max(map(abs, v2 + v3)) + 1e-12
    tol = 1e-10 * s * (1 + abs(e1) + abs(e2))
    eq = lambda a, b, what: check(np.allclose(np.asarray(a, float), b, rtol=0, atol=tol), lambda: f"{what}: {np.asarray(a).tolist()} instead of {np.asarray(b).tolist()} for {case}")
    eq(T.t_23(v3), M.t23(v3), "abc -> alphabeta")
    eq(T.t_32(v2), M.t32(v2), "alphabeta -> abc")
    eq(T.q(v2, e1), M.rot(v2, e1), "dq -> alphabeta")
    eq(T.q_inv(v2, e1), M.rot(v2, -e1), "alphabeta -> dq")
    eq(T.t_23(T.t_32(v2)), v2, "alphabeta -> abc -> alphabeta")
    bal = np.array(v3) - np.mean(v3)
    eq(T.t_32(T.t_23(bal)), bal, "balanced abc -> alphabeta -> abc")
    eq(T.t_32(T.t_23(v3)), bal, "abc -> alphabeta -> abc removes the zero sequence only")
    eq(T.q_inv(T.q(v2, e1), e1), v2, "dq -> alphabeta -> dq")
    eq(T.q(T.q(v2, e1), e2), T.q(v2, e1 + e2), "two rotations")
    check(abs(math.hypot(*T.q(v2, e1)) - math.hypot(*v2)) <= tol, "rotation changes the amplitude")
    check(abs(sum(T.t_32(v2))) <= tol, "phase quantities do not sum to zero")
    # amplitude invariance: a three phase system of amplitude A has the two phase amplitude A
    A = abs(v2[0])
    abc = [A * math.cos(e1), A * math.cos(e1 - 2 * math.pi / 3), A * math.cos(e1 + 2 * math.pi / 3)]
    eq(T.t_23(abc), [A * math.cos(e1), A * math.sin(e1)], "amplitude invariant transformation")
    m = ps.PermanentMagnetSynchronousMotor(motor_parameter=dict(p=p))
    eq(m.q_me(v2, e1), M.rot(v2, p * e1), "mechanical angle")
    eq(m.q_inv_me(v2, e1), M.rot(v2, -p * e1), "inverse mechanical angle")
    if not _SYS:
        _SYS["s"] = gem.make("Cont-CC-PMSM-v0", visualization=g.NoVisu()).unwrapped.physical_system
    y = _SYS["s"]
    en = e1 / math.pi
    eq(y.abc_to_alphabeta_space(v3), M.t23(v3), "system abc -> alphabeta")
    eq(y.alphabeta_to_abc_space(v2), M.t32(v2), "system alphabeta -> abc")
    # the arguments are read only, whatever their form
    for ang, normed in ((np.array(e1), False), (np.array(en), True)):
        before = float(ang)
        a3, a2 = np.array(v3, float), np.array(v2, float)
        for f, v, want in (
            (y.abc_to_dq_space, a3, M.park(v3, e1)),
            (y.dq_to_abc_space, a2, M.inv_park(v2, e1)),
            (y.alphabeta_to_dq_space, a2, M.rot(v2, -e1)),
            (y.dq_to_alphabeta_space, a2, M.rot(v2, e1)),
        ):
            for _ in range(2):
                eq(f(v, ang, normed_epsilon=normed), want, f"{f.__name__} of arrays (normed {normed})")
            check(
                float(ang) == before and (a3 == v3).all() and (a2 == v2).all(),
                lambda: f"{f.__name__} changes its arguments: angle {float(ang)} instead of {before} for {case}",
            )
    for ang, normed in ((e1, False), (en, True)):
        eq(y.abc_to_dq_space(v3, ang, normed_epsilon=normed), M.park(v3, e1), f"system abc -> dq (normed {normed})")
        eq(y.dq_to_abc_space(v2, ang, normed_epsilon=normed), M.inv_park(v2, e1), f"system dq -> abc (normed {normed})")
        eq(y.alphabeta_to_dq_space(v2, ang, normed_epsilon=normed), M.rot(v2, -e1), f"system alphabeta -> dq (normed {normed})")
        eq(y.dq_to_alphabeta_space(v2, ang, normed_epsilon=normed), M.rot(v2, e1), f"system dq -> alphabeta (normed {normed})")
    return bool(any(v2) and e1), ["transform"]


# ------------------------------------------------------------------------------------------------ reported states
def _pairs(mod, y):
    """reported name -> value, from the integrated state (omega, electrical state ...)"""
    motor, x = mod.motor, np.asarray(y[1:], float)
    d = dict(omega=float(y[0]), torque=mod.torque(x))
    if motor in g.SYNC:
        eps = x[-1]
        d.update(zip(("i_sd", "i_sq"), x[:2]))
        d.update(zip(("i_a", "i_b", "i_c"), M.inv_park(x[:2], eps)))
        if motor == "EESM":
            d["i_e"] = x[2]
    else:
        eps = x[4]
        fl = math.atan2(x[3], x[2])
        d.update(zip(("i_sa", "i_sb", "i_sc"), M.t32(x[:2])))
        d.update(zip(("i_sd", "i_sq"), M.rot(x[:2], -fl)))
        if motor == "DFIM":
            ir = (x[2:4] - mod.lm * x[:2]) / mod.lr
            d.update(zip(("i_ra", "i_rb", "i_rc"), M.t32(M.rot(ir, -eps))))
            d.update(zip(("i_rd", "i_rq"), M.rot(ir, -fl)))
    return d, eps


def _in_arc(angle, lo, hi, tol):
    """angle (mod 2 pi) within the arc from lo to hi (either direction, shorter than one turn)"""
    if hi < lo:
        lo, hi = hi, lo
    a = lo + (angle - lo) % (2 * math.pi)
    return a <= hi + tol or a >= lo + 2 * math.pi - tol


def run_report(case):
    spec = dict(case["spec"], constraints=[])
    act, task, motor = g.split(spec["id"])
    mp = g.mp_from(motor, spec.get("mp", {}))
    spec["mp"] = spec.get("mp") or {"j_rotor": 0}
    mod = M.Machine(motor, mp)
    ld = spec["load"]
    solver = g.solver(spec.pop("solver", None) or "dopri5")
    env = g.build(spec, ode_solver=solver)
    psys = env.physical_system
    names, lim = list(psys.state_names), np.asarray(psys.limits)
    tau, p_ = psys.tau, mp["p"]
    steps, cur = 0, False
    ang = "stator" if motor in g.SYNC else "field"
    prev = None
    first = [["reset"]] + case["ops"]
    for op in first:
        if op[0] == "reset":
            (s, r), _ = env.reset(seed=case["seed"] if prev is None else None)
            todo = [None]
        else:
            todo = list(g.expand(env.action_space, [op[1:]]))
        for a in todo:
            if a is not None:
                (s, r), *_ = env.step(a)
                steps += 1
            s = np.asarray(s, float)
            if not np.isfinite(s).all() or np.max(np.abs(s)) > 1e5:
                return steps >= 3, ["diverged"]
            d = dict(zip(names, s * lim))
            y = np.array(solver.y, float)
            ref, eps = _pairs(mod, y)
            what = f"{motor} {'reset' if a is None else 'step'}"
            # currents and torque of the integrated state
            scale_i = max([abs(v) for k, v in ref.items() if k.startswith("i")] + [1e-9])
            for k, v in ref.items():
                sc = scale_i if k.startswith("i") else abs(v)
                if k == "torque":
                    sc = abs(v) + 1e-3 * 1.5 * p_ * scale_i * (float(np.max(np.abs(y[3:5]))) if motor in g.IND else scale_i * (mp["l_d"] + mp["l_q"]))
                check(
                    abs(d[k] - v) <= 1e-7 * sc + 1e-9,
                    lambda: f"{what}: reported {k}={d[k]}, the state of the drive is {v} (integrated state {y.tolist()})",
                )
            # mutual consistency without the solver
            for abc, dq in ((("i_a", "i_b", "i_c"), ("i_sd", "i_sq")), (("i_sa", "i_sb", "i_sc"), ("i_sd", "i_sq")), (("i_ra", "i_rb", "i_rc"), ("i_rd", "i_rq"))):
                if abc[0] not in d:
                    continue
                ph, two = [d[k] for k in abc], [d[k] for k in dq]
                check(abs(sum(ph)) <= 1e-8 * scale_i + 1e-9, lambda: f"{what}: phase currents {ph} do not sum to zero")
                check(abs(math.hypot(*M.t23(ph)) - math.hypot(*two)) <= 1e-8 * scale_i + 1e-9, lambda: f"{what}: amplitude of {abc} and {dq} differ: {ph} {two}")
                if ang == "stator":
                    back = M.park(ph, d["epsilon"])
                    check(np.allclose(back, two, rtol=0, atol=1e-7 * scale_i + 1e-9), lambda: f"{what}: {dq}={two}, but {abc} at epsilon={d['epsilon']} gives {back.tolist()}")
            cur = cur or scale_i > 1e-3
            # the angle
            check(-math.pi - 1e-9 <= d["epsilon"] <= math.pi + 1e-9, lambda: f"{what}: epsilon {d['epsilon']} outside of one period")
            check(abs(M.wrap(d["epsilon"] - eps)) <= 1e-7 + 1e-12 * abs(eps), lambda: f"{what}: epsilon {d['epsilon']} instead of {M.wrap(eps)}")
            if a is not None:
                dw = abs(d["omega"] - prev["omega"])
                # the speed between the two instants, from the torque
                acc = 0.0 if ld["kind"] == "const" else 2 * tau * (abs(d["torque"]) + abs(prev["torque"]) + 0.1) / (mp["j_rotor"] + ld["j"])
                adv = p_ * tau * 0.5 * (d["omega"] + prev["omega"])
                e = M.wrap(d["epsilon"] - prev["epsilon"] - adv)
                check(
                    abs(e) <= p_ * tau * (0.26 * dw + acc + 1e-5 * abs(d["omega"])) + 1e-8,
                    lambda: f"{what}: the angle advances by {M.wrap(d['epsilon'] - prev['epsilon'])} instead of {adv}",
                )
            # voltages: dq values are the phase values in a frame angle the drive passed in this step
            _, eps0 = _pairs(mod, prev["y"]) if a is not None else (None, eps)
            fl = lambda z: math.atan2(z[4], z[3])
            for abc, dq, rotor in ((("u_a", "u_b", "u_c"), ("u_sd", "u_sq"), 0), (("u_sa", "u_sb", "u_sc"), ("u_sd", "u_sq"), 0), (("u_ra", "u_rb", "u_rc"), ("u_rd", "u_rq"), 1)):
                if abc[0] not in d:
                    continue
                ph, two = [d[k] for k in abc], [d[k] for k in dq]
                ab = M.t23(ph)
                amp = math.hypot(*ab)
                usup = d["u_sup"]
                check(max(map(abs, ph)) <= 0.5 * usup * (1 + 1e-9), lambda: f"{what}: phase voltages {ph} beyond half the supply voltage {usup}")
                check(abs(amp - math.hypot(*two)) <= 1e-8 * usup, lambda: f"{what}: amplitude of {abc} {ph} and {dq} {two} differ")
                if amp < 1e-6 * usup:
                    continue
                th = math.atan2(ab[1], ab[0]) - math.atan2(two[1], two[0])
                y0 = prev["y"] if a is not None else y
                if ang == "stator":
                    lo, hi, tol = eps0, eps, 1e-6
                else:
                    f0, f1 = fl(y0), fl(y)
                    locked = bool(a is not None and spec.get("lock") and act == "Finite")  # the frame of a sub-interval
                    p0, p1 = math.hypot(*y0[3:5]), math.hypot(*y[3:5])
                    if abs(M.wrap(f1 - f0)) > 1 or (locked and (min(p0, p1) < 0.5 * max(p0, p1) or tau > 1e-4)):
                        continue
                    f1 = f0 + M.wrap(f1 - f0)
                    lo, hi = (f0 - eps0, f1 - eps) if rotor else (f0, f1)
                    tol = 1e-3 + 0.2 * locked + 0.5 * abs(f1 - f0)  # the flux may turn back within a step
                check(
                    _in_arc(th, lo, hi, tol),
                    lambda: f"{what}: {dq}={two} is {abc}={ph} in the frame angle {M.wrap(th)}, the frame moved from {M.wrap(lo)} to {M.wrap(hi)} in the step",
                )
            prev = dict(d, y=y)
    return steps >= 3 and cur, [motor, act]


# ------------------------------------------------------------------------------------------------ dq actions
def run_control_space(case):
    """control_space='dq': the step is that of the transformed phase action"""
    motor, tau = case["motor"], case["tau"]
    cls = dict(PMSM=ps.SynchronousMotorSystem, SynRM=ps.SynchronousMotorSystem, SCIM=ps.SquirrelCageInductionMotorSystem)[motor]
    mp = g.mp_from(motor, case["mp"])

    def make(space, solver):
        return cls(
            supply=ps.IdealVoltageSupply(u_nominal=400.0), converter=ps.ContB6BridgeConverter(), motor=g.MOTOR_CLS[motor](motor_parameter=dict(mp)),
            load=ps.ConstantSpeedLoad(omega_fixed=case["omega"]), ode_solver=solver, tau=tau, calc_jacobian=None, control_space=space,
        )  # fmt: skip

    sb = g.solver(case["solver"])
    A, B = make("dq", g.solver(case["solver"])), make("abc", sb)
    check(A.action_space.shape == (2,), lambda: f"dq action space {A.action_space}")
    check(B.action_space.shape == (3,), lambda: f"abc action space {B.action_space}")
    a, b = A.reset(), B.reset()
    check(np.allclose(a, b, rtol=1e-12, atol=1e-12), "initial states differ")
    names, lim = list(B.state_names), np.asarray(B.limits)
    n = 0
    for u in case["plan"]:
        u = np.array(u)
        if motor == "SCIM":
            y = np.asarray(sb.y)
            ang = math.atan2(y[4], y[3])
        else:
            ang = b[names.index("epsilon")] * lim[names.index("epsilon")]
        a = A.simulate(u)
        b = B.simulate(M.inv_park(u, ang))
        n += 1
        if not np.isfinite(b).all() or np.max(np.abs(b)) > 1e5:
            break
        check(np.allclose(a, b, rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(b)))), lambda: f"{motor} step {n}: dq action {u.tolist()} gives {a.tolist()}, the transformed phase action {b.tolist()}")
    return n >= 3 and case["omega"] != 0, [motor]


def run_processor(case):
    """DqToAbcActionProcessor: the inner drive is given the phase action at the expected mean angle of its step"""
    spec = dict(case["spec"], constraints=[])
    motor = g.split(spec["id"])[2]
    dead = case["dead"]
    inner = ([dict(kind="flux")] if motor == "SCIM" else []) + ([dict(kind="dead", steps=dead)] if dead else [])
    A = g.build(dict(spec, wrappers=inner + [dict(kind="dq")]))
    B = g.build(dict(spec, wrappers=inner))
    n_act = 3 if motor == "EESM" else 2
    check(A.action_space.shape == (n_act,), lambda: f"{motor}: action space {A.action_space}")
    names, lim = list(B.physical_system.state_names), np.asarray(B.physical_system.limits)
    check(list(A.physical_system.state_names) == names, "the processor changes the state names")
    p_, tau = B.physical_system.electrical_motor.motor_parameter["p"], B.physical_system.tau
    ia, iw = names.index("psi_angle" if motor == "SCIM" else "epsilon"), names.index("omega")
    n, turn = 0, False
    for ep in range(2):
        (a, _), _ = A.reset(seed=case["seed"] if ep == 0 else None)
        (b, _), _ = B.reset(seed=case["seed"] if ep == 0 else None)
        check(np.allclose(a, b, rtol=1e-12, atol=1e-12), "initial states differ")
        for u in case["plan"]:
            u = np.array(u[:n_act])
            ang, w = b[ia] * lim[ia], b[iw] * lim[iw]
            turn = turn or abs(w) > 1
            abc = M.inv_park(u[:2], ang + (0.5 + dead) * tau * w * p_)
            if motor == "EESM":
                abc = np.r_[abc, u[2]]
            a = A.physical_system.simulate(u)
            b = B.physical_system.simulate(abc)
            n += 1
            if not np.isfinite(b).all() or np.max(np.abs(b)) > 1e5:
                break
            check(np.allclose(a, b, rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(b)))), lambda: f"{motor} dead time {dead}, step {n}: dq action {u.tolist()} gives {a.tolist()}, the phase action {abc.tolist()} gives {b.tolist()}")
    return n >= 3 and turn, [motor, f"dead{dead}"]


_v = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), g.f(-500, 500), g.f(-1, 1))
_ang = st.one_of(st.sampled_from([0.0, math.pi, -math.pi, math.pi / 2, math.pi / 6]), g.f(-7, 7), g.f(-300, 300))
_transform = st.fixed_dictionaries(
    dict(v2=st.lists(_v, min_size=2, max_size=2), v3=st.lists(_v, min_size=3, max_size=3), e1=_ang, e2=_ang, p=st.integers(1, 6))
)


def _load(draw, motor):
    return draw(
        st.one_of(
            st.fixed_dictionaries(dict(kind=st.just("const"), omega=g.f(-150, 150))),
            st.fixed_dictionaries(
                dict(kind=st.just("static"), a=g.f(0, 0.5), b=g.f(0, 0.1), c=g.f(0, 0.01), j=g.log(1e-3, 1e-1)),
                optional=dict(init=st.fixed_dictionaries(dict(states=st.fixed_dictionaries(dict(omega=g.f(-100, 100)))))),
            ),
        )
    )


@st.composite
def _report(draw):
    spec = draw(g.specs([i for i in g.IDS if g.split(i)[2] in AC], features=("mp", "minit", "jac", "lock"), p_feature=0.4))
    motor = g.split(spec["id"])[2]
    spec["load"] = _load(draw, motor)
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4, 1e-4, 3e-4]))
    spec["solver"] = draw(st.sampled_from(["dopri5", "RK45", "odeint", "dopri5", "lsoda"]))
    op = st.one_of(*[st.tuples(st.just("step"), g.UVEC, st.integers(1, 8)).map(list)] * 4, st.just(["reset"]))
    return dict(spec=spec, seed=draw(st.integers(0, 99)), ops=draw(st.lists(op, min_size=1, max_size=8)))


@st.composite
def _processor(draw):
    motor = draw(st.sampled_from(["PMSM", "EESM", "SCIM"]))
    spec = draw(g.specs([f"Cont-{t}-{motor}-v0" for t in ("CC", "TC", "SC")], features=("mp", "minit", "tau"), p_feature=0.4))
    spec["load"] = _load(draw, motor)
    return dict(spec=spec, dead=draw(st.integers(0, 3)), seed=draw(st.integers(0, 99)), plan=draw(_plan))


_u1 = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), g.f(-1, 1))
_plan = st.lists(st.lists(_u1, min_size=3, max_size=3), min_size=3, max_size=25)
_cs = st.sampled_from(["PMSM", "SynRM", "SCIM"]).flatmap(
    lambda m: st.fixed_dictionaries(
        dict(
            motor=st.just(m), mp=g.mp_scale(m), tau=st.sampled_from([1e-5, 1e-4, 3e-4]), omega=st.one_of(st.just(0.0), g.f(-150, 150)),
            solver=st.sampled_from(["dopri5", "RK45", "odeint"]), plan=st.lists(st.lists(_u1, min_size=2, max_size=2), min_size=3, max_size=25),
        )
    )
)  # fmt: skip
SUBS = [
    Sub("transform", _transform, run_transform, 3000, 100000),
    Sub("report", _report(), run_report, 1200, 30000, shards=8),
    Sub("control_space", _cs, run_control_space, 500, 15000, shards=3),
    Sub("processor", _processor(), run_processor, 500, 15000, shards=4),
]  # fmt: skip
