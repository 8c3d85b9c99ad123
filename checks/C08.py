"""C08: converter and machine exchange consistent power; passive drives lose energy."""
import numpy as np
from hypothesis import strategies as st

from checks.C05 import _n_u, _n_x
from checks.C07 import _act, _conv, _rel, _tau, _u01, make
from gym_electric_motor.physical_systems import solvers as slv
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, Violation, check

PROPERTY = "C08"
RULE = (
    "converter: converter, dead time, action and current history; supply current times supply voltage = sum of output "
    "powers at every queried instant. machine: random machine parameters, state, voltages and speed; input power = "
    "losses + change of stored energy + mechanical power. decay: a drive is excited by random actions and then "
    "short-circuited; magnetic plus kinetic energy never grows. Non-trivial: a non-zero current flows (converter), "
    "state, speed and voltage are non-zero (machine), the stored energy was positive when the drive was short-circuited (decay)."
)


def _currents(desc, vals, signs):
    """one value per terminal; the three phases of a B6 bridge sum up to zero; one-quadrant outputs carry no negative current"""
    out, p = [], 0
    for d in desc.get("subs", [desc]):
        k = d["kind"]
        if k.endswith("B6"):
            a, b = vals[p % len(vals)], vals[(p + 1) % len(vals)]
            out += [a, b, -a - b]
            p += 2
        else:
            v = vals[p % len(vals)]
            out.append(abs(v) if k in ("F1", "C1") else v)
            p += 1
    return [float(v) for v in out]


def _pinned_isup(desc, mod, i):
    """the supply current of the continuous converters with dead time as implemented (known finding)"""
    if desc["kind"] == "CM":
        s, p = 0.0, 0
        for d, m in zip(desc["subs"], mod.subs):
            s += _pinned_isup(d, m, i[p : p + m.n_i])
            p += m.n_i
        return s
    r = mod.ti / mod.tau
    leg = lambda d, x: (d + r * ((x < 0) - d)) * x
    if desc["kind"] == "C1":
        return mod.d[0] * i[0]
    if desc["kind"] == "C4":
        return leg(mod.d[0], i[0]) + leg(mod.d[1], -i[0])
    return sum(leg(d, x) for d, x in zip(mod.d, i))


def run_converter(case):
    desc, tau = case["conv"], case["tau"]
    ti = case["rel"] * tau
    conv, mod = make(desc, tau, ti, case["inst"]), M.Conv(desc, tau, ti)
    conv.reset(), mod.reset()
    fin = desc["kind"].startswith("F")
    t, flow, known = 0.0, False, None
    for us, vals, vals2, fr in case["steps"]:
        a = _act(desc, us)
        times = [float(x) for x in conv.set_action(a, t)]
        mod.command(a)
        queries = [("active", vals2, t + ti + (0.02 + 0.98 * fr) * (tau - ti)), ("active", vals2, t + tau)]
        if fin and mod.has_dead:
            queries = [("dead", vals, t + fr * ti), ("dead", vals, t + ti)] + queries
        for phase, v, tq in queries:
            i = _currents(desc, v, None)
            u = [float(np.squeeze(x)) for x in conv.convert(list(i), tq)]
            mod.output(i, phase)
            i_sup = float(np.squeeze(conv.i_sup(list(i))))
            p_out = sum(x * y for x, y in zip(u, i))
            flow = flow or any(i)
            tol = 1e-9 * (1 + sum(abs(x) for x in i))
            if abs(i_sup - p_out) > tol:
                msg = (
                    f"{desc}: action {np.asarray(a).tolist()} ({phase}), dead time {ti / tau} tau, currents {i}: supply "
                    f"current {i_sup}, power delivered to the outputs {p_out} (per volt of supply voltage)"
                )
                if not fin and ti > 0 and abs(i_sup - _pinned_isup(desc, mod, i)) <= tol:
                    known = known or Violation(msg, "cont-dead-time-supply-current")
                else:
                    raise Violation(msg)
        t += tau
    if known:
        raise known
    return flow, [desc["kind"], "dead" if ti else "plain"]


def run_machine(case):
    motor, mp = case["motor"], g.mp_from(case["motor"], case["mp"])
    m = g.MOTOR_CLS[motor](motor_parameter=dict(mp))
    mod = M.Machine(motor, mp)
    n = _n_x(motor)
    x, w = np.array(case["x"][:n], float), float(case["w"])
    if motor in g.IND:
        x[2:4] /= 100.0
    u = np.array(case["u"][: _n_u(motor)], float)
    if motor == "DFIM":
        u = u.reshape(2, 2)
    dx = np.array(m.electrical_ode(x, u, w), float)
    p_mech = float(m.torque(x)) * w
    p_in, loss, de = mod.p_in(x, u), mod.p_loss(x), mod.denergy(x, dx)
    # the largest terms that have to cancel
    terms = abs(p_in) + loss + abs(de) + abs(p_mech)
    e = np.abs(x) @ np.abs(dx[: len(x)])
    scale = terms + 1e-3 * (mod.energy(np.abs(x)) * (np.max(np.abs(dx)) / (np.max(np.abs(x)) + 1e-9)) if np.any(x) else 0) + 1e-6
    if motor in g.IND:
        # the rotor current is a difference of large quantities
        i_r = (np.abs(x[2:4]) + mod.lm * np.abs(x[:2])) / mod.lr
        scale += np.sum(i_r) * (np.max(np.abs(u)) + mp["r_r"] * np.max(i_r) + abs(mp["p"] * w) * np.max(np.abs(x[2:4])) + mp["r_s"] * np.max(np.abs(x[:2])))
    bal = p_in - loss - de - p_mech
    check(
        abs(bal) <= 1e-6 * scale,
        lambda: f"{motor} at x={x.tolist()}, u={u.tolist()}, w={w}: input {p_in} - losses {loss} - stored {de} - mechanical {p_mech} = {bal}",
    )
    return bool(w and np.any(u) and np.any(x)), [motor]


def run_decay(case):
    spec = dict(case["spec"], constraints=[])
    act, task, motor = g.split(spec["id"])
    default_eesm = motor == "EESM" and case.get("default_eesm")
    if not default_eesm:
        spec["mp"] = dict(spec.get("mp", {}), j_rotor=0)
        mp = g.mp_from(motor, spec["mp"])
    solver = slv.ScipyOdeSolver("dopri5", rtol=1e-8, atol=1e-12)
    env = g.build(spec, ode_solver=solver)
    if default_eesm:
        mp = dict(env.physical_system.electrical_motor.motor_parameter)
    mod = M.Machine(motor, mp)
    j = mp["j_rotor"] + spec["load"]["j"]
    env.reset(seed=1)
    for a in g.expand(env.action_space, case["plan"]):
        env.step(a)
    zero = g.action(env.action_space, [500])
    if act == "Finite":
        zero = np.zeros_like(zero) if np.ndim(zero) else 0
    energy = lambda y: float(mod.energy(np.asarray(y[1:], float)) + 0.5 * j * y[0] ** 2)
    e0 = last = energy(solver.y)
    if not np.isfinite(e0):
        return False, [motor, "diverged"]
    for k in range(case["n"]):
        env.step(zero)
        e = energy(solver.y)
        if e > last * (1 + 1e-7) + 1e-9 * e0 + 1e-15:
            raise Violation(
                f"{motor} short-circuited: stored energy grows from {last} to {e} in step {k + 1} (state {np.asarray(solver.y).tolist()})",
                "eesm-default-parameters-not-passive" if default_eesm else None,
            )
        last = e
        if e < -1e-12:
            raise Violation(
                f"{motor} short-circuited: the stored energy is {e} (state {np.asarray(solver.y).tolist()})",
                "eesm-default-parameters-not-passive" if default_eesm else None,
            )
    return e0 > 0, [motor, act]


_num = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 100.0]), g.f(-400, 400), g.f(-5, 5))
_cur = st.lists(st.one_of(st.sampled_from([0.0, 1.0, -1.0]), g.f(-100, 100)), min_size=1, max_size=6)


@st.composite
def _decay(draw):
    spec = draw(g.specs(features=("mp", "minit"), p_feature=0.5))
    motor = g.split(spec["id"])[2]
    if motor in g.IND or spec.get("minit", {}).get("random_init"):
        spec.pop("minit", None)
    spec["load"] = dict(
        kind="static", a=draw(g.f(0, 0.5)), b=draw(g.f(0, 0.05)), c=draw(g.f(0, 0.001)), j=draw(g.log(1e-3, 1e-1)),
        init=dict(states=dict(omega=draw(g.f(0, 120)))),
    )  # fmt: skip
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4, 5e-4]))
    return dict(spec=spec, plan=draw(g.segments(4, 6)), n=draw(st.integers(1, 25)))


SUBS = [
    Sub(
        "converter",
        _conv.flatmap(
            lambda c: st.fixed_dictionaries(
                dict(
                    conv=st.just(c), tau=_tau, rel=_rel, inst=st.booleans(),
                    steps=st.lists(
                        st.tuples(st.lists(_u01, min_size=1, max_size=6), _cur, _cur, g.f(0.01, 0.99)).map(list),
                        min_size=1, max_size=10,
                    ),
                )
            )
        ),
        run_converter, 4000, 150000, shards=4,
    ),
    Sub(
        "machine",
        st.sampled_from(g.MOTORS).flatmap(
            lambda m: st.fixed_dictionaries(
                dict(
                    motor=st.just(m), mp=g.mp_scale(m), x=st.lists(_num, min_size=5, max_size=5),
                    u=st.lists(_num, min_size=4, max_size=4), w=_num,
                )
            )
        ),
        run_machine, 6000, 200000, shards=4,
    ),
    Sub("decay", _decay(), run_decay, 600, 20000, shards=8),
]  # fmt: skip
