"""C09: voltage supplies deliver their specified voltage."""
import math

import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import physical_systems as ps
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, check

PROPERTY = "C09"
RULE = (
    "history: supply class, parameters, seed and a history of resets and queries (time increments, currents); every "
    "delivered voltage is compared with the closed form (sinusoid) or the capacitor equation. drive: complete drives "
    "with the supply, co-simulated with the reported supply voltage; recorded queries. Non-trivial: at least two "
    "queries at different times (history); at least 3 steps and a non-zero current (drive)."
)
CLS = dict(ideal=ps.IdealVoltageSupply, rc=ps.RCVoltageSupply, ac1=ps.AC1PhaseSupply, ac3=ps.AC3PhaseSupply)
DEF_U = dict(ideal=600.0, rc=600.0, ac1=230.0, ac3=400.0)


def make(d):
    kw, k = {}, d["kind"]
    if d["u"] is not None:
        kw["u_nominal"] = d["u"]
    if k == "rc" and d.get("R") is not None:
        kw["supply_parameter"] = dict(R=d["R"], C=d["C"])
    if k.startswith("ac") and d.get("f") is not None:
        kw["supply_parameter"] = dict(frequency=d["f"], **({"phase": d["phase"]} if d["phase"] is not None else {}))
    return CLS[k](**kw), kw


def _amp(kind, u):
    return u * math.sqrt(2.0) if kind == "ac1" else u * math.sqrt(2.0 / 3.0)


def run_history(case):
    d = case["supply"]
    k = d["kind"]
    s, kw = make(d)
    u = d["u"] if d["u"] is not None else DEF_U[k]
    check(s.u_nominal == u, lambda: f"u_nominal {s.u_nominal} instead of {u}")
    check(s.voltage_len == (3 if k == "ac3" else 1), "number of supply voltages")
    rng = dict(ideal=(u, u), rc=(0, u)).get(k) or (-_amp(k, u), _amp(k, u))
    check(np.allclose(tuple(s.supply_range), rng, rtol=1e-12), lambda: f"supply range {s.supply_range} instead of {rng}")
    if k.startswith("ac"):
        s.seed(np.random.SeedSequence(case["seed"]))
    R, C = (d.get("R") or 1.0), (d.get("C") or 4e-3)
    f = d.get("f") or 50.0
    t, last, phi, phis, times = 0.0, None, None, [], set()
    for op in [["reset"]] + case["ops"]:
        if op[0] == "reset":
            v = [float(x) for x in s.reset()]
            t = 0.0
            if k in ("ideal", "rc"):
                check(v == [u], lambda: f"{k}: {v} after reset instead of [{u}]")
                last = u
                continue
            # determine the phase of this episode from two instants, a quarter period apart
            a = _amp(k, u)
            q = float(s.get_voltage(0.25 / f, 0.0)[0])
            phi = math.atan2(v[0] / a, q / a)
            check(abs(math.hypot(v[0], q) - a) <= 1e-9 * a, lambda: f"amplitude {math.hypot(v[0], q)} instead of {a}")
            if d.get("phase") is not None:
                check(abs(M.wrap(phi - d["phase"])) < 1e-9, lambda: f"phase {phi} instead of the given {d['phase']}")
            phis.append(phi)
            got, tq = v, 0.0
        else:
            if k != "rc":
                t = op[1] * (1.0 / f if k.startswith("ac") else 1.0)  # any time, any order
            else:
                t += op[1] * R * C
            got = [float(x) for x in s.get_voltage(t, op[2])]
            tq = t
            times.add(t)
        if k == "ideal":
            check(got == [u], lambda: f"ideal supply delivers {got} instead of {u}")
        elif k == "rc":
            dt, i = op[1] * R * C, op[2]
            u_inf = u - R * i
            exact = u_inf + (last - u_inf) * math.exp(-dt / (R * C))
            # explicit Euler: error below (dt/RC)^2/2
            tol = 0.5 * (dt / (R * C)) ** 2 * abs(last - u_inf) + 1e-9 * (abs(last) + abs(u_inf))
            check(abs(got[0] - exact) <= tol, lambda: f"RC supply {got[0]} instead of {exact} (+-{tol}) after {dt} s with {i} A from {last} V")
            check(len(got) == 1, "one voltage expected")
            last = got[0]
        else:
            a, n = _amp(k, u), 3 if k == "ac3" else 1
            ref = [a * math.sin(2 * math.pi * f * tq + phi + 2 * math.pi / 3 * m) for m in range(n)]
            check(len(got) == n, lambda: f"{len(got)} voltages")
            check(
                np.allclose(got, ref, rtol=0, atol=1e-7 * a * (1 + abs(f * tq))),
                lambda: f"{k} delivers {got} at t={tq} instead of {ref} (phase {phi})",
            )
            if n == 3:
                check(abs(sum(got)) <= 1e-7 * a, lambda: f"the phase voltages {got} do not sum up to zero")
    if k.startswith("ac") and d.get("phase") is None and len(phis) >= 3:
        check(len({round(p, 9) for p in phis}) > 1, "the unspecified phase is not drawn anew at a reset")
    if k.startswith("ac") and d.get("phase") is not None and not 0 <= d["phase"] < 2 * math.pi:
        check(False, "harness: invalid phase")
    return len(times) >= 2 or k == "ideal", [k]


def run_invalid(case):
    """A phase outside of one period and incomplete parameters are rejected."""
    k, bad = case
    try:
        if bad == "phase-":
            CLS[k](supply_parameter=dict(frequency=50.0, phase=-0.1))
        elif bad == "phase+":
            CLS[k](supply_parameter=dict(frequency=50.0, phase=2 * math.pi))
        elif bad == "nofreq":
            CLS[k](supply_parameter=dict(phase=0.5))
        elif bad == "noR":
            ps.RCVoltageSupply(supply_parameter=dict(C=1e-3))
        else:
            ps.RCVoltageSupply(supply_parameter=dict(R=1.0))
    except Exception:
        return True, [bad]
    check(False, f"{k}: parameters {bad} accepted")


class Spy(ps.VoltageSupply):
    """A user-defined supply with a known time and current dependent voltage, recording its queries."""

    def __init__(self, u, amp, f, r):
        super().__init__(u)
        self.supply_range = (u - amp, u + amp)
        self.amp, self.f, self.r, self.log = amp, f, r, []

    def get_voltage(self, t, i_sup):
        v = self._u_nominal + self.amp * math.sin(2 * math.pi * self.f * t) - self.r * float(np.squeeze(i_sup))
        self.log.append((float(t), float(np.squeeze(i_sup)), v))
        return [v]

    def reset(self):
        self.log = []
        return super().reset()


REPORTED = {
    "PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"], "PMSM": ["i_a", "i_b", "i_c"],
    "SynRM": ["i_a", "i_b", "i_c"], "EESM": ["i_a", "i_b", "i_c", "i_e"], "SCIM": ["i_sa", "i_sb", "i_sc"],
    "DFIM": ["i_sa", "i_sb", "i_sc", "i_ra", "i_rb", "i_rc"],
}  # fmt: skip
VOLT = {
    "PermExDc": ["u"], "SeriesDc": ["u"], "ShuntDc": ["u"], "ExtExDc": ["u_a", "u_e"], "PMSM": ["u_a", "u_b", "u_c"],
    "SynRM": ["u_a", "u_b", "u_c"], "EESM": ["u_a", "u_b", "u_c", "u_e"], "SCIM": ["u_sa", "u_sb", "u_sc"],
    "DFIM": ["u_sa", "u_sb", "u_sc", "u_ra", "u_rb", "u_rc"],
}  # fmt: skip


def run_drive(case):
    spec = dict(case["spec"], constraints=[])
    act, task, motor = g.split(spec["id"])
    spec["mp"] = dict(spec.get("mp", {}), j_rotor=0)
    mp = g.mp_from(motor, spec["mp"])
    d, tau = case["supply"], spec["tau"]
    k = d["kind"]
    sup = Spy(d["u"], d["amp"], d["f"], d["r"]) if k == "spy" else make(d)[0]
    env = g.build(spec, supply=sup)
    mach = M.Machine(motor, mp)
    conv = M.Conv(M.default_converter(act, motor), tau, 0.0)
    psys = env.physical_system
    names, lim = list(psys.state_names), np.asarray(psys.limits)
    check(lim[names.index("u_sup")] == d["u"], lambda: f"limit of u_sup {lim[names.index('u_sup')]} instead of {d['u']}")
    ends = [float(z[names.index("u_sup")]) * d["u"] for z in (psys.state_space.low, psys.state_space.high)]
    rng = tuple(sup.supply_range)
    fits = [np.allclose(ends, (lo, rng[1]), rtol=1e-9) for lo in {rng[0], min(rng[0], 0.0)}]
    check(any(fits), lambda: f"state space of u_sup {ends} instead of {rng}")
    n_cmp = 0
    for ep in range(2):
        (s, r), _ = env.reset(seed=case["seed"] if ep == 0 else None)
        conv.reset()
        p = dict(zip(names, np.asarray(s) * lim))
        w = p["omega"]
        if motor in g.IND:
            x = np.zeros(5)
            x[4] = p["epsilon"]
        elif motor in g.SYNC:
            x = np.array([p["i_sd"], p["i_sq"]] + ([p["i_e"]] if motor == "EESM" else []) + [p["epsilon"]])
        else:
            x = np.array([p[n] for n in REPORTED[motor]])
        u_last, phi = p["u_sup"], None
        if k in ("ideal", "rc"):
            check(abs(u_last - d["u"]) < 1e-9 * d["u"], lambda: f"supply voltage {u_last} after reset instead of {d['u']}")
        if k == "ac1":
            a = _amp(k, d["u"])
            if d["phase"] is not None:
                phi = d["phase"]
                check(abs(u_last - a * math.sin(phi)) < 1e-9 * a, lambda: f"supply voltage {u_last} after reset, phase {phi}")
            check(abs(u_last) <= a * (1 + 1e-12), "supply voltage beyond the amplitude")
        n, scale, hist = 0, 1e-3, [u_last]
        for a_ in g.expand(env.action_space, case["plan"]):
            (s, r), *_ = env.step(a_)
            p = dict(zip(names, np.asarray(s) * lim))
            us = p["u_sup"]
            hist.append(us)
            conv.command(a_)
            cur = M.terminal_currents(mach, x)
            u = conv.output(cur, "active")
            t0 = n * tau
            # the supply itself
            if k == "ideal":
                check(us == d["u"], lambda: f"u_sup={us} instead of {d['u']}")
            elif k == "spy":
                t_q, i_q, v = sup.log[-1]
                check(abs(us - v) <= 1e-9 * abs(v) + 1e-12, lambda: f"u_sup={us} reported, the supply delivered {v}")
                check(t0 - 1e-9 * tau <= t_q <= t0 + tau * (1 + 1e-9), lambda: f"step from {t0}: supply queried at {t_q}")
                p_out = sum(a * b for a, b in zip(u, cur)) if act == "Finite" or motor else 0
                tol = 2e-3 * (1e-3 + sum(abs(c) for c in cur)) + 1e-3 * scale
                check(abs(i_q - p_out) <= tol, lambda: f"{motor}: supply current {i_q} instead of {p_out} in step {n + 1}")
            elif k == "ac1":
                a = _amp(k, d["u"])
                if phi is not None:
                    ref = a * math.sin(2 * math.pi * d["f"] * t0 + phi)
                    check(abs(us - ref) <= 1e-6 * a, lambda: f"u_sup={us} in the step from {t0} instead of {ref}")
                elif len(hist) >= 4:
                    # samples of a sinusoid: u[k+1] + u[k-1] = 2 cos(2 pi f tau) u[k]
                    e = hist[-1] + hist[-3] - 2 * math.cos(2 * math.pi * d["f"] * tau) * hist[-2]
                    check(abs(e) <= 1e-6 * a, lambda: f"u_sup {hist[-3:]} is no sinusoid of {d['f']} Hz")
            else:
                R, C = d["R"], d["C"]
                if n > 0:
                    i = sum(a * b for a, b in zip(u, cur))
                    u_inf = d["u"] - R * i
                    h = tau / (R * C)
                    exact = u_inf + (u_last - u_inf) * math.exp(-h)
                    tol = 0.5 * h * h * abs(u_last - u_inf) + h * R * (2e-3 * sum(abs(c) for c in cur) + 1e-3 * scale) + 1e-9 * d["u"]
                    check(abs(us - exact) <= tol, lambda: f"u_sup={us} in step {n + 1} instead of {exact} (+-{tol}), current {i}, before {u_last}")
            u_last = us
            # reported = applied
            for name, v in zip(VOLT[motor], u):
                check(abs(p[name] - v * us) <= 1e-9 * abs(d["u"]) * 2, lambda: f"{motor}: {name}={p[name]} instead of {v} * {us}")
            x, w = mach.rk4(x, M.motor_input(mach, x, us * np.array(u)), w, tau, 24, 1.0, None)
            n += 1
            cur = M.terminal_currents(mach, x) if motor != "ShuntDc" else list(x)
            scale = max([scale] + [abs(c) for c in cur])
            if not scale < 1e7:
                break
            got = [p[q] for q in REPORTED[motor]]
            check(
                np.allclose(got, cur, rtol=0, atol=3e-4 * scale * (1 + 0.05 * n)),
                lambda: f"{motor} with {k} supply, step {n}: currents {got} instead of {[float(c) for c in cur]}",
            )
        n_cmp += n
    return n_cmp >= 3, [k, motor]


_u = st.one_of(st.sampled_from([24.0, 60.0, 230.0, 600.0]), g.f(1, 1000))
_ph = st.one_of(st.none(), st.sampled_from([0.0, 6.28]), g.f(0, 6.28))
_supply = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("ideal"), u=st.one_of(st.none(), _u))),
    st.fixed_dictionaries(dict(kind=st.just("rc"), u=st.one_of(st.none(), _u), R=g.log(1e-3, 10), C=g.log(1e-4, 1))),
    st.fixed_dictionaries(dict(kind=st.just("rc"), u=_u, R=st.none(), C=st.none())),
    st.fixed_dictionaries(dict(kind=st.sampled_from(["ac1", "ac3"]), u=st.one_of(st.none(), _u), f=st.one_of(st.sampled_from([50.0, 60.0]), g.f(1, 500)), phase=_ph)),
    st.fixed_dictionaries(dict(kind=st.sampled_from(["ac1", "ac3"]), u=_u, f=st.none(), phase=st.none())),
)  # fmt: skip
_query = st.tuples(st.just("get"), st.one_of(st.sampled_from([0.0, 0.25, 0.5]), g.log(1e-4, 0.5), g.f(0, 0.5)), g.f(-200, 400)).map(list)
_hist = st.lists(st.one_of(_query, _query, _query, _query, st.just(["reset"])), min_size=1, max_size=14)


@st.composite
def _drive(draw):
    spec = draw(g.specs(features=("mp",), p_feature=0.3))
    act, _, motor = g.split(spec["id"])
    spec["load"] = dict(kind="const", omega=draw(g.f(0, 120)))
    spec["tau"] = draw(st.sampled_from([1e-5, 1e-4, 3e-4]))
    u = draw(st.sampled_from([24.0, 60.0, 420.0]))
    opts = [
        st.fixed_dictionaries(dict(kind=st.just("ideal"), u=st.just(u))),
        st.fixed_dictionaries(dict(kind=st.just("rc"), u=st.just(u), R=g.log(0.3, 3), C=g.log(1e-3, 1e-1))),
        st.fixed_dictionaries(
            dict(kind=st.just("spy"), u=st.just(u), amp=st.sampled_from([0.0, 5.0, 20.0]), f=st.sampled_from([50.0, 500.0]), r=st.sampled_from([0.0, 0.01]))
        ),
    ]  # fmt: skip
    if motor in g.DC:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("ac1"), u=st.just(u), f=st.sampled_from([50.0, 400.0]), phase=_ph)))
    return dict(spec=spec, supply=draw(st.one_of(opts)), seed=draw(st.integers(0, 99)), plan=draw(g.segments(5, 6)))


SUBS = [
    Sub("history", st.fixed_dictionaries(dict(supply=_supply, seed=st.integers(0, 99), ops=_hist)), run_history, 4000, 100000, shards=4),
    Sub(
        "invalid",
        st.sampled_from([[k, b] for k in ("ac1", "ac3") for b in ("phase-", "phase+", "nofreq")] + [["rc", "noR"], ["rc", "noC"]]),
        run_invalid, 8, 8,
    ),
    Sub("drive", _drive(), run_drive, 600, 20000, shards=8),
]  # fmt: skip
