"""C07: converters apply exactly the output voltages their switching commands define."""
import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import physical_systems as ps
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, Violation, check

PROPERTY = "C07"
RULE = (
    "history: converter (single or multi), sampling time, dead time and a sequence of actions with currents of chosen "
    "signs and query times, resets and sampling time changes; outputs are compared with a topology model. drive: a "
    "complete drive with dead time, co-simulated with machine model and topology model. Non-trivial: at least two "
    "different actions were applied and (history) for finite converters a dead time interval was queried or the dead "
    "time is zero."
)
CLS = dict(F1=ps.Finite1QC, F2=ps.Finite2QC, F4=ps.Finite4QC, FB6=ps.FiniteB6C, C1=ps.Cont1QC, C2=ps.Cont2QC, C4=ps.Cont4QC, CB6=ps.ContB6C)  # fmt: skip
N_F = dict(F1=2, F2=3, F4=4, FB6=8)


def make(desc, tau, ti, as_instance):
    kw = dict(tau=tau, interlocking_time=ti)
    if desc["kind"] in ("FM", "CM"):
        subs = [CLS[d["kind"]](**kw) if as_instance else CLS[d["kind"]] for d in desc["subs"]]
        return (ps.FiniteMulti if desc["kind"] == "FM" else ps.ContMulti)(subconverters=subs, **kw)
    return CLS[desc["kind"]](**kw)


def _bounds(desc):
    k = desc["kind"]
    if k in ("FM", "CM"):
        return [b for d in desc["subs"] for b in _bounds(d)]
    return {"1": [(0.0, 1.0)], "2": [(0.0, 1.0)], "4": [(-1.0, 1.0)], "6": [(-1.0, 1.0)] * 3}[k[-1]]


def _act(desc, us):
    k = desc["kind"]
    if k == "FM":
        return np.array([int(u * (N_F[d["kind"]] - 1) + 0.5) for u, d in zip(g._cyc(us, len(desc["subs"])), desc["subs"])])
    if k in N_F:
        return int(us[0] * (N_F[k] - 1) + 0.5)
    b = []
    for d in desc.get("subs", [desc]):
        b += [(0.0, 1.0)] if d["kind"] in ("C1", "C2") else [(-1.0, 1.0)] * (3 if d["kind"] == "CB6" else 1)
    return np.array([lo + (hi - lo) * u for u, (lo, hi) in zip(g._cyc(us, len(b)), b)])


def _spaces(conv, desc):
    k = desc["kind"]
    bounds = _bounds(desc)
    for lo, hi, (l, h) in zip(conv.voltages.low, conv.voltages.high, bounds):
        check(lo == l and hi == h, lambda: f"voltage space [{lo}, {hi}] instead of [{l}, {h}]")
    check(conv.voltages.shape == (len(bounds),), "dimension of the voltage space")
    sp = conv.action_space
    if k == "FM":
        check(list(sp.nvec) == [N_F[d["kind"]] for d in desc["subs"]], lambda: f"action space {sp}")
    elif k in N_F:
        check(sp.n == N_F[k], lambda: f"action space {sp}")
    else:
        lo, hi = _act(desc, [0.0]), _act(desc, [1.0])
        check(np.array_equal(sp.low, lo) and np.array_equal(sp.high, hi), lambda: f"action space {sp}")


def run_history(case):
    desc, tau = case["conv"], case["tau"]
    ti = case["rel"] * tau
    conv, mod = make(desc, tau, ti, case["inst"]), M.Conv(desc, tau, ti)
    _spaces(conv, desc)
    fin = desc["kind"].startswith("F")
    ref = mod.reset()
    got = conv.reset()
    check(np.array_equal(np.asarray(got, float), ref), lambda: f"reset output {got} instead of {ref}")
    t, seen, dead_q = 0.0, set(), 0
    bounds, known = _bounds(desc), None
    for op in case["ops"]:
        if op[0] == "reset":
            got, ref, t = conv.reset(), mod.reset(), 0.0
            check(np.array_equal(np.asarray(got, float), ref), lambda: f"reset output {got} instead of {ref}")
            continue
        if op[0] == "tau":
            tau = case["tau"] * op[1]
            conv.tau = tau
            mod.set_tau(tau)
            check(conv.tau == tau, "tau is not taken over")
            continue
        _, us, i_dead, i_act, fr = op
        a = _act(desc, us)
        seen.add(str(a))
        times = conv.set_action(a, t)
        mod.command(a)
        times = [float(x) for x in times]
        check(
            all(t < x <= t + tau * (1 + 1e-9) for x in times) and all(p < q for p, q in zip(times, times[1:])),
            lambda: f"switching times {times} for the step from {t} to {t + tau}",
        )
        check(abs(times[-1] - (t + tau)) <= 1e-9 * tau, lambda: f"the last switching time is {times[-1]}, not {t + tau}")
        dead = fin and mod.has_dead
        check(len(times) == (2 if dead else 1), lambda: f"{len(times)} switching times, dead time pending: {dead}")
        queries = []
        if dead:
            check(abs(times[0] - (t + ti)) <= 1e-9 * tau, lambda: f"switching time {times[0]} instead of {t + ti}")
            queries += [("dead", i_dead, t + fr * ti), ("dead", i_dead, times[0])]
            dead_q += 1
        queries += [("active", i_act, t + ti + (0.02 + 0.98 * fr) * (tau - ti)), ("active", i_act, times[-1])]
        for phase, i, tq in queries:
            cur = [float(v) for v in g._cyc(i, mod.n_i)]
            got = conv.convert(list(cur), tq)
            ref = mod.output(cur, phase)
            got = np.asarray([float(np.squeeze(v)) for v in got])
            check(got.shape == (len(ref),), lambda: f"{len(got)} output voltages instead of {len(ref)}")
            check(
                all(lo - 1e-9 <= v <= hi + 1e-9 for v, (lo, hi) in zip(got, bounds)),
                lambda: f"output {got.tolist()} outside of the voltage space",
            )
            if not np.allclose(got, ref, rtol=0, atol=1e-9):
                msg = (
                    f"{desc} action {np.asarray(a).tolist()} at {'t+%g tau' % ((tq - t) / tau)} ({phase}), dead time "
                    f"{ti / tau} tau, currents {cur}: output {got.tolist()} instead of {ref}"
                )
                if not fin and ti > 0 and np.allclose(got, mod.output(cur, phase, pinned4=True), rtol=0, atol=1e-9):
                    # the listed finding: reported at the end, so that it hides nothing else of this history
                    known = known or Violation(msg, "cont4qc-dead-time-current-direction")
                else:
                    raise Violation(msg)
        t += tau
    if known:
        raise known
    return len(seen) >= 2 and (not fin or ti == 0 or dead_q > 0 or desc["kind"] == "F1"), [desc["kind"], "dead" if dead_q else "plain"]


def run_invalid(case):
    """Finite converters reject actions outside of the action space and keep working afterwards."""
    desc, tau = case["conv"], 1e-4
    ti = case["rel"] * tau
    conv, twin = make(desc, tau, ti, True), make(desc, tau, ti, True)
    conv.reset(), twin.reset()
    a0 = _act(desc, case["us"])
    for c in (conv, twin):
        c.set_action(a0, 0.0)
        n_i = len(_bounds(desc))
        c.convert([1.0] * n_i, tau)
    bad = case["bad"]
    if desc["kind"] == "FM":
        b = list(a0)
        b[case["pos"] % len(b)] = bad if bad < 0 else N_F[desc["subs"][case["pos"] % len(b)]["kind"]] + bad
        bad_action = np.array(b)
    else:
        bad_action = bad if bad < 0 else N_F[desc["kind"]] + bad
    try:
        conv.set_action(bad_action, tau)
    except Exception:
        pass
    else:
        raise Violation(f"{desc}: the invalid action {bad_action} is accepted")
    if desc["kind"] in N_F:
        for c in (conv, twin):
            c.set_action(_act(desc, case["us2"]), tau)
        cur = [-1.0] * n_i
        for tq in (tau + 0.5 * ti, 2 * tau):
            if tq > tau:
                u, v = conv.convert(cur, tq), twin.convert(cur, tq)
                check(np.array_equal(u, v), lambda: f"{desc}: {u} instead of {v} after a rejected action")
    return True, [desc["kind"]]


def run_fresh(case):
    """After a reset a converter behaves like a new one."""
    desc, tau = case["conv"], case["tau"]
    ti = case["rel"] * tau
    conv = make(desc, tau, ti, case["inst"])
    conv.reset()
    n = M.Conv(desc, tau, ti).n_i
    t = 0.0

    def play(c, plan):
        out, t = [], 0.0
        for us, i in plan:
            times = c.set_action(_act(desc, us), t)
            cur = [float(v) for v in g._cyc(i, n)]
            out.append([float(x) for x in times])
            for x in times:
                out.append([float(np.squeeze(v)) for v in c.convert(cur, x)])
                out.append([float(np.squeeze(c.i_sup(cur)))])
            t += tau
        return out

    play(conv, case["pre"])
    r1 = conv.reset()
    o1 = play(conv, case["post"])
    new = make(desc, tau, ti, case["inst"])
    r2 = new.reset()
    o2 = play(new, case["post"])
    check(np.array_equal(r1, r2) and o1 == o2, lambda: f"{desc}: {o1} after a reset, {o2} with a new converter")
    return len(case["pre"]) > 0 and len(case["post"]) > 0, [desc["kind"]]


# ------------------------------------------------------------------------------------------------ complete drives
REPORTED = {
    "PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"], "PMSM": ["i_a", "i_b", "i_c"],
    "SynRM": ["i_a", "i_b", "i_c"], "EESM": ["i_a", "i_b", "i_c", "i_e"], "SCIM": ["i_sa", "i_sb", "i_sc"],
    "DFIM": ["i_sa", "i_sb", "i_sc", "i_ra", "i_rb", "i_rc"],
}  # fmt: skip
VOLT = {
    "PermExDc": ["u"], "SeriesDc": ["u"], "ShuntDc": ["u"], "ExtExDc": ["u_a", "u_e"],
    "EESM": ["u_e"],
}  # fmt: skip


def run_drive(case):
    spec = dict(case["spec"], constraints=[])
    act, task, motor = g.split(spec["id"])
    spec["mp"] = dict(spec.get("mp", {}), j_rotor=0)
    mp = g.mp_from(motor, spec["mp"])
    tau = spec["tau"]
    ti = (spec.get("lock") or 0.0) * tau
    extra = {}
    desc = M.default_converter(act, motor)
    if case.get("alt") and motor in ("PermExDc", "SeriesDc", "ShuntDc"):
        desc = dict(kind=case["alt"])
        extra["converter"] = CLS[case["alt"]](tau=tau, interlocking_time=ti)
    env = g.build(spec, **extra)
    mach, conv = M.Machine(motor, mp), M.Conv(desc, tau, ti)
    psys = env.physical_system
    names, lim = list(psys.state_names), np.asarray(psys.limits)
    usup = psys.supply.u_nominal
    (s, r), _ = env.reset(seed=1)
    conv.reset()
    p = dict(zip(names, np.asarray(s) * lim))
    w = p["omega"]
    if motor in g.IND:
        x = np.zeros(5)
        x[4] = p["epsilon"]
    elif motor in g.SYNC:
        x = np.array([p["i_sd"], p["i_sq"]] + ([p["i_e"]] if motor == "EESM" else []) + [p["epsilon"]])
    else:
        x = np.array([p[n] for n in REPORTED[motor]])
    n, dead_n, scale = 0, 0, 1e-3
    for a in g.expand(env.action_space, case["plan"]):
        (s, r), *_ = env.step(a)
        conv.command(a)
        phases = [("dead", ti), ("active", tau - ti)] if act == "Finite" and conv.has_dead else [("active", tau)]
        dead_n += len(phases) - 1
        for phase, dt in phases:
            cur = M.terminal_currents(mach, x)
            scale = max([scale] + [abs(c) for c in cur])
            if n + (phase == "active" and len(phases) > 1) and any(abs(c) < 1e-4 * scale for c in cur) and (ti > 0 or desc["kind"][-1] in "12" ):
                return n >= 2 and dead_n > 0, [motor, act, "sign-undecided"]
            u = conv.output(cur, phase, pinned4=True)
            x, w = mach.rk4(x, M.motor_input(mach, x, usup * np.array(u)), w, dt, 24, 1.0, None)
        n += 1
        p = dict(zip(names, np.asarray(s) * lim))
        cur = M.terminal_currents(mach, x) if motor != "ShuntDc" else list(x)
        scale = max([scale] + [abs(c) for c in cur])
        got = [p[k] for k in REPORTED[motor]]
        check(
            np.allclose(got, cur, rtol=0, atol=3e-4 * scale * (1 + 0.05 * n)),
            lambda: f"{motor} {desc['kind']} dead time {ti / tau} tau, step {n}, action {np.asarray(a).tolist()}: "
            f"currents {got} instead of {[float(c) for c in cur]}",
        )
        for k, v in zip(VOLT.get(motor, []), u if motor != "EESM" else u[3:]):
            check(abs(p[k] - v * usup) < 1e-9 * usup, lambda: f"{motor} step {n}: {k}={p[k]} instead of {v * usup}")
    return n >= 2 and (dead_n > 0 or act == "Cont" or ti == 0), [motor, act, "dead" if dead_n else "plain"]


_single_f = st.sampled_from(["F1", "F2", "F2", "F4", "F4", "FB6", "FB6"]).map(lambda k: dict(kind=k))
_single_c = st.sampled_from(["C1", "C2", "C4", "CB6"]).map(lambda k: dict(kind=k))
_fin = st.one_of(_single_f, st.fixed_dictionaries(dict(kind=st.just("FM"), subs=st.lists(_single_f, min_size=1, max_size=3))))
_conv = st.one_of(
    _fin, _single_c, st.fixed_dictionaries(dict(kind=st.just("CM"), subs=st.lists(_single_c, min_size=1, max_size=3))), _fin
)
_u01 = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), g.f(0, 1))
_over = st.one_of(_u01, _u01, _u01, g.f(-0.2, 1.2))  # continuous actions beyond the space are limited
_cur = st.lists(st.one_of(st.sampled_from([0.0, 1.0, -1.0]), g.f(-100, 100)), min_size=1, max_size=6)
_rel = st.one_of(st.just(0.0), st.sampled_from([0.01, 0.1, 0.5, 0.9]), g.f(0.005, 0.9))
_tau = st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, 0.5])


def _hist_ops(conv):
    u = _u01 if conv["kind"].startswith("F") else _over
    step = st.tuples(st.just("step"), st.lists(u, min_size=1, max_size=6), _cur, _cur, g.f(0.01, 0.99)).map(list)
    other = st.one_of(st.just(["reset"]), st.tuples(st.just("tau"), st.sampled_from([1.0, 2.0, 5.0])).map(list))
    return st.lists(st.one_of(step, step, step, step, step, step, other), min_size=2, max_size=14)


@st.composite
def _drive(draw):
    spec = draw(g.specs(features=("mp",), p_feature=0.4))
    act, _, motor = g.split(spec["id"])
    spec["load"] = dict(kind="const", omega=draw(g.f(0, 170)))
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4, 1e-4, 4e-4]))
    spec["lock"] = draw(st.sampled_from([None, 0.05, 0.3, 0.7]))
    if draw(st.booleans()) and motor not in g.IND:
        spec["minit"] = dict(states={n: draw(g.f(0.5 if motor in g.DC else -4, 5)) for n in g.CURRENTS[motor]})
    alt = draw(st.sampled_from([None, "F2", "F1"] if act == "Finite" else [None, "C2", "C1"]))
    return dict(spec=spec, alt=alt, plan=draw(g.segments(8, 3)))


SUBS = [
    Sub(
        "history",
        _conv.flatmap(
            lambda c: st.fixed_dictionaries(dict(conv=st.just(c), tau=_tau, rel=_rel, inst=st.booleans(), ops=_hist_ops(c)))
        ),
        run_history, 5000, 200000, shards=8,
    ),
    Sub(
        "invalid",
        st.fixed_dictionaries(
            dict(
                conv=_fin, rel=_rel, us=st.lists(_u01, min_size=1, max_size=4), us2=st.lists(_u01, min_size=1, max_size=4),
                bad=st.integers(-3, 5), pos=st.integers(0, 5),
            )
        ),
        run_invalid, 600, 10000, shards=2,
    ),
    Sub(
        "fresh",
        st.fixed_dictionaries(
            dict(
                conv=_conv, tau=_tau, rel=_rel, inst=st.booleans(),
                pre=st.lists(st.tuples(st.lists(_u01, min_size=1, max_size=6), _cur).map(list), max_size=5),
                post=st.lists(st.tuples(st.lists(_u01, min_size=1, max_size=6), _cur).map(list), max_size=5),
            )
        ),
        run_fresh, 1500, 40000, shards=4,
    ),
    Sub("drive", _drive(), run_drive, 800, 30000, shards=8),
]  # fmt: skip
