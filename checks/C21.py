"""C21: the operating point selections request currents that yield the wanted torque."""
import copy

import numpy as np
from hypothesis import strategies as st

import gem_controllers as gc
from checks import C19
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C21"
RULE = (
    "dc: operating points of the DC machines for arbitrary parameters, limits, readings and torque requests; non-trivial "
    "with a non-zero torque request. sync: PMSM and SynRM, online calculation, arbitrary parameters, speeds and requests "
    "against a brute-force search over all currents within current and flux limits; table: the two table-based "
    "calculations, up to the resolution of the tables; eesm: the same for the externally excited machine with its three "
    "currents; non-trivial if a reachable and a not fully reachable torque were requested. scim: arbitrary parameters, flux "
    "readings and requests, and the flux the operating point selection settles at; non-trivial if the torque request was "
    "reachable. complete: the requests of complete torque and speed controllers stay within the current limits for "
    "arbitrary histories, a reset equals a new selection; non-trivial if one request was limited and one was not."
)
V = C19.V
CC = C19.CC
TCIDS = [i for i in g.IDS if i.startswith("Cont-TC") and "DFIM" not in i]
DCIDS = [i for i in g.IDS if "-TC-" in i and g.split(i)[2] in g.DC]


def stage_of(motor, **kw):
    return gc.stages.torque_to_current_function[motor](**kw)


def state_vector(env, **vals):
    x = np.zeros(len(env.state_names))
    for k, v in vals.items():
        x[env.state_names.index(k)] = v
    return x


def call(ops, x, T):
    x0, r = x.copy(), np.array([float(T)])
    out = np.array(ops(x, r), float).reshape(-1)
    check(np.array_equal(x, x0) and r[0] == T, "the operating point selection changed its inputs", "inputs")
    check(np.all(np.isfinite(out)), lambda: f"current references {out} for the torque {T}", "finite")
    return out


# --------------------------------------------------------------------------------------------- DC machines
@st.composite
def dc_cases(draw):
    return dict(
        spec=draw(C19.drives(DCIDS)),
        margin=draw(st.sampled_from([0.2, 0.0, 0.5])),
        steps=draw(st.lists(st.tuples(st.lists(V, min_size=8, max_size=8), g.whole(-1500, 1500)).map(list), min_size=1, max_size=8)),
    )  # fmt: skip


def run_dc(case):
    spec, margin = case["spec"], case["margin"]
    motor = g.split(spec["id"])[2]
    env = C19.build(spec)
    mach = C19.machine(env, spec)
    mp = mach.mp
    ops = stage_of(motor)
    ops.tune(env, spec["id"], margin)
    lim = dict(zip(env.state_names, env.limits))
    nz = 0
    for xs, t in case["steps"]:
        x = C19.observation(env, xs) * env.limits
        T = t / 1000 * lim["torque"]
        s = dict(zip(env.state_names, x))
        if motor == "ExtExDc" and s["i_e"] < 1e-3:
            continue
        out = call(ops, x, T)
        nz += T != 0
        if motor == "SeriesDc":
            got = mach.torque(out)
            check(C19.near(got, max(T, 0.0)), f"series machine: {out} yields {got} Nm instead of {T}", "series")
        elif motor == "PermExDc":
            got = mach.torque(out)
            cap = mp["psi_e"] * max(lim["u"] - mp["psi_e"] * abs(s["omega"]), 0.0) / mp["r_a"]
            motoring = T * s["omega"] > 0
            ok = C19.near(got, T) or ((motoring or s["omega"] == 0) and abs(T) > cap and C19.near(got, np.sign(T) * cap))
            check(ok, lambda: f"PermEx machine: {out} yields {got} Nm instead of {T} Nm (reachable {cap})", "permex")
            if motoring:
                check(abs(got) <= cap * (1 + 1e-9) + 1e-12, f"PermEx machine: {got} Nm beyond the reachable {cap} Nm", "permex:cap")
        elif motor == "ShuntDc":
            i_max, e_max = lim["i_a"] * (1 - margin), lim["i_e"] * (1 - margin)
            if abs(s["i_e"]) > e_max:
                # the terminal voltage has to come back: armature current of the opposite direction
                check(C19.near(out, [-np.sign(s["i_e"]) * i_max]), f"shunt machine: {out} at i_e = {s['i_e']} A", "shunt:limit")
            elif abs(s["i_e"]) >= 1e-3:
                got = mach.torque([out[0], s["i_e"]])
                check(C19.near(got, T), f"shunt machine: {out} and i_e = {s['i_e']} yield {got} Nm instead of {T}", "shunt")
        else:
            i_a, i_e = out
            got = mach.torque([i_a, s["i_e"]])
            check(C19.near(got, T), f"externally excited machine: {out} and i_e = {s['i_e']} yield {got} instead of {T}", "extex")
            # excitation with the least copper losses for this torque
            loss = lambda e: mach.p_loss([abs(T) / mp["l_e_prime"] / e, e])  # noqa: E731
            if T:
                check(i_e > 0, f"externally excited machine: excitation {i_e} for {T} Nm", "extex:excitation")
                best = min(loss(i_e * f) for f in np.geomspace(0.05, 20, 201))
                check(loss(i_e) <= best * (1 + 1e-9), lambda: f"losses {loss(i_e)} at i_e = {i_e}, but {best} is possible", "extex:loss")
            else:
                check(i_e == 0, f"excitation {i_e} without torque", "extex:zero")
    return nz > 0, [motor]


# --------------------------------------------------------------------------------------------- synchronous machines
def sync_specs(motor):
    eid = f"Cont-TC-{motor}-v0"
    mp = st.fixed_dictionaries(
        {},
        optional={
            "l_d": st.integers(-8, 8),
            "l_q": st.integers(-8, 8),
            "psi_p": st.integers(-8, 8),
            "r_s": st.integers(-8, 8),
            "p": st.integers(1, 4),
        },
    )
    lim = st.sampled_from([None, None, 0.5, 2])
    return st.fixed_dictionaries(dict(id=st.just(eid), mp=mp, f=lim))


def sync_env(spec):
    d = dict(id=spec["id"], mp=spec["mp"])
    motor = g.split(spec["id"])[2]
    if motor == "SCIM":
        d["wrappers"] = [dict(kind="flux")]
    if spec.get("f"):
        base = dict(PMSM=400, SynRM=18, SCIM=5.5, EESM=150)[motor]
        d["limits"] = {"i": base * spec["f"]}
    return g.build(d)


def flux(mp, i):
    return float(np.hypot(mp["l_d"] * i[0] + mp.get("psi_p", 0.0), mp["l_q"] * i[1]))


def torque(mp, i_d, i_q):
    return 1.5 * mp["p"] * (mp.get("psi_p", 0.0) + (mp["l_d"] - mp["l_q"]) * i_d) * i_q


def max_torque(mp, i_max, psi_max, n=2001):
    """brute force: the largest torque with field weakening currents within both limits and a current for it"""
    i_d = np.linspace(-i_max, 0, n)
    i_q = np.sqrt(np.maximum(i_max**2 - i_d**2, 0.0))
    v2 = psi_max**2 - (mp["l_d"] * i_d + mp.get("psi_p", 0.0)) ** 2
    ok = v2 >= 0
    if not np.any(ok):
        return 0.0
    i_q = np.minimum(i_q, np.sqrt(np.maximum(v2, 0.0)) / mp["l_q"])
    return float(np.max(np.abs(torque(mp, i_d, i_q))[ok]))


def min_current(mp, T, i_max, n=4001):
    """brute force: the smallest current for the torque"""
    i_d = np.linspace(-1.5 * i_max, 0, n)
    f = 1.5 * mp["p"] * (mp.get("psi_p", 0.0) + (mp["l_d"] - mp["l_q"]) * i_d)
    with np.errstate(divide="ignore", invalid="ignore"):
        i = np.hypot(i_d, T / f)
    return float(np.nanmin(i))


SPEEDS = st.one_of(st.sampled_from([0, 0, 1000, -1000]), g.whole(-1000, 1000))
REQ = st.tuples(SPEEDS, st.one_of(st.sampled_from([0, 1000, -1000, 1]), g.whole(-1000, 1000)), g.whole(0, 1000), st.booleans())
REQS = st.lists(REQ.map(list), min_size=3, max_size=10)


@st.composite
def sync_cases(draw):
    motor = draw(st.sampled_from(["PMSM", "SynRM"]))
    return dict(spec=draw(sync_specs(motor)), margin=draw(st.sampled_from([0.2, 0.2, 0.0, 0.5])), req=draw(REQS))


LUT_MP = dict(PMSM=[{}, dict(l_d=6, l_q=6, psi_p=-6)], SynRM=[{}, dict(l_d=8, l_q=-8)])
_CACHE = {}


@st.composite
def table_cases(draw):
    motor = draw(st.sampled_from(["PMSM", "SynRM"]))
    return dict(
        spec=dict(id=f"Cont-TC-{motor}-v0", mp=draw(st.sampled_from(LUT_MP[motor])), f=None),
        mode=draw(st.sampled_from(["analytical", "interpolate"])),
        margin=0.2,
        req=draw(REQS),
    )


def run_sync(case):
    spec, mode = case["spec"], case.get("mode", "online")
    motor = g.split(spec["id"])[2]
    env = sync_env(spec)
    mp = dict(env.physical_system.electrical_motor.motor_parameter)
    if motor == "PMSM" and mp["l_d"] > mp["l_q"]:
        return False, ["l_d > l_q"]
    if motor == "SynRM" and abs(mp["l_d"] / mp["l_q"] - 1) < 0.3:
        return False, ["no reluctance"]
    lim = dict(zip(env.state_names, env.limits))
    key = (spec["id"], mode, repr(spec["mp"]), case["margin"])
    if mode == "online":
        ops = stage_of(motor)
        ops.tune(env, spec["id"], case["margin"])
    else:
        if key not in _CACHE:
            _CACHE[key] = stage_of(motor, torque_control=mode)
            _CACHE[key].tune(env, spec["id"], case["margin"])
        ops = _CACHE[key]
    ops.reset()
    i_max = lim["i_sd"] * (1 - case["margin"])
    t_all = max_torque(mp, i_max, np.inf)
    scale = max(t_all, lim["torque"])
    # 250 rows from zero to the flux of the largest currents
    step = np.hypot(mp.get("psi_p", 0.0) + mp["l_d"] * i_max, mp["l_q"] * i_max) / 249
    seen = set()
    for om, t, u, restart in case["req"]:
        if restart:
            ops.reset()
        omega, T = om / 1000 * lim["omega"], t / 1000 * scale
        x = state_vector(env, omega=omega, u_sd=u / 1000 * lim["u_sd"] * 0.7, u_sq=u / 1000 * lim["u_sq"] * 0.7)
        psi_max = float(copy.deepcopy(ops).modulation_control(x.copy()))
        i = call(ops, x, T)
        got = float(torque(mp, *i))
        what = f"{motor} ({mode}) at {omega} 1/s: {i} A yield {got} Nm for the request {T} Nm"
        if psi_max <= 0 or mp.get("psi_p", 0.0) - mp["l_d"] * i_max > psi_max:
            seen.add("flux not reachable")
            continue
        # tolerances: exact calculation; tables of 250 x 250 points
        res = 1e-6 * scale if mode == "online" else 0.03 * scale
        if mode == "interpolate":
            # linear between scattered points; the edges of the reachable region are curved
            res = 0.12 * scale if flux(mp, i) > 0.85 * psi_max else 0.06 * scale
        check(abs(got) <= abs(T) + max(res, 0.01 * scale), what + ": too much torque", f"{mode}:more")
        check(got * T >= -res * abs(T), what + ": wrong sign", f"{mode}:sign")
        reach = max_torque(mp, i_max, psi_max)
        check(np.hypot(*i) <= i_max * (1.01 if mode == "online" else 1.03), what + f", limit {i_max} A", f"{mode}:current")
        psi_opt = flux(mp, i)
        more = 0.01 * (psi_max + mp["l_q"] * i_max)
        if mode != "online":
            more *= 3
            if motor == "SynRM":
                # the flux of a pure reluctance torque depends on its root
                d_t = 2 * abs(torque(mp, lim["i_sd"], lim["i_sq"])) / 125
                more += np.sqrt(psi_max**2 + d_t / (0.75 * mp["p"] * abs(1 / mp["l_d"] - 1 / mp["l_q"]))) - psi_max
        check(psi_opt <= psi_max + more, what + f": flux {psi_opt}, available {psi_max}", f"{mode}:flux")
        if abs(T) <= 0.95 * reach - 0.02 * t_all:
            # exact, except where the table of the maximum torque per flux limits it one row too early
            row = max(psi_opt - step, 0.0)
            exact = abs(got - T) <= res or (abs(got - T) <= max(res, 0.02 * scale) and abs(got) >= 0.98 * max_torque(mp, i_max, row))
            check(exact, what + f" although {reach} Nm are reachable", f"{mode}:torque")
            seen.add("reachable")
            if flux(mp, i) < 0.9 * psi_max:
                # the table of the minimum currents has 250 torques
                best = min_current(mp, max(abs(T), abs(got)) + 3 * scale / 125, i_max)
                check(np.hypot(*i) <= best + 0.01 * i_max, what + f" although {best} A suffice", f"{mode}:mtpc")
                seen.add("mtpc")
            else:
                seen.add("field weakening")
        else:
            want = min(abs(T), reach)
            check(abs(got) >= 0.93 * want - 0.03 * t_all, what + f" although {reach} Nm are reachable", f"{mode}:less")
            seen.add("limited")
    return {"reachable", "limited"} <= seen, [motor, mode] + sorted(seen)


# --------------------------------------------------------------------------------------------- modulation control
@st.composite
def mod_cases(draw):
    motor = draw(st.sampled_from(["PMSM", "SynRM", "SCIM"]))
    return dict(spec=draw(sync_specs(motor)) | (dict(mp={}) if motor == "SCIM" else {}), damping=draw(st.sampled_from([1.2, 1.5, 3])), a_max=draw(st.sampled_from([1.1547005383792517, 1.0, 0.8])),
                steps=draw(st.lists(st.tuples(SPEEDS, g.whole(0, 1000), st.integers(0, 628), st.integers(0, 15)).map(list), min_size=2, max_size=12)))  # fmt: skip


def run_mod(case):
    """The flux limit against a reference model of the modulation controller."""
    spec = case["spec"]
    motor = g.split(spec["id"])[2]
    env = sync_env(spec)
    ops = stage_of(motor, max_modulation_level=case["a_max"], modulation_damping=case["damping"])
    ops.tune(env, spec["id"], 0.2)
    ops.reset()
    lim = dict(zip(env.state_names, env.limits))
    mp = env.physical_system.electrical_motor.motor_parameter
    u_max = lim.get("u_a", lim.get("u_sa"))  # peak of the phase voltage
    reset_value, was_limited, integ = ops.integrated_reset, False, ops.integrated_reset
    lo, hi = ops.psi_low, ops.psi_high
    check(lo < 0 < hi, f"flux correction between {lo} and {hi}", "mod:range")
    seen = set()
    for om, u, ang, rep in case["steps"]:
        omega = om / 1000 * lim["omega"]
        x = state_vector(env, omega=omega, u_sd=u / 1000 * u_max * np.cos(ang / 100), u_sq=u / 1000 * u_max * np.sin(ang / 100))
        for _ in range(rep + 1):
            got = float(ops.modulation_control(x))
            we = max(abs(omega), 1e-4) * mp["p"]
            a = 2 * (u / 1000 * u_max) / (np.sqrt(3) * u_max)
            if a > 1.1 * case["a_max"]:
                integ = reset_value
            e = ops.k_ * case["a_max"] - a
            delta = ops.i_gain * np.sqrt(3) * u_max / (2 * we) * (e * env.physical_system.tau + integ)
            if lo <= delta <= hi:
                if was_limited:
                    integ, was_limited = reset_value, False
                integ += e * env.physical_system.tau
                seen.add("free")
            else:
                delta = min(max(delta, lo), hi)
                was_limited = True
                seen.add("limited")
            want = u_max / we + delta
            check(C19.near(got, want, u_max / we, delta), f"flux limit {got} Vs instead of {want} at {omega} 1/s", "mod")
    return len(seen) == 2, [motor] + sorted(seen)


# --------------------------------------------------------------------------------------------- EESM
@st.composite
def eesm_cases(draw, mps):
    return dict(spec=dict(id="Cont-TC-EESM-v0", mp=draw(st.sampled_from(mps)), f=None), req=draw(REQS))


def eesm_reach(mp, i_max, e_max, psi_max):
    i_e = np.linspace(0, e_max, 41)[:, None]
    i_d = np.linspace(-i_max, i_max, 401)[None, :]
    psi_d = mp["l_d"] * i_d + mp["l_m"] * i_e
    v2 = psi_max**2 - psi_d**2
    i_q = np.minimum(np.sqrt(np.maximum(i_max**2 - i_d**2, 0.0)), np.sqrt(np.maximum(v2, 0.0)) / mp["l_q"])
    T = np.abs(1.5 * mp["p"] * (mp["l_m"] * i_e + (mp["l_d"] - mp["l_q"]) * i_d) * i_q)
    return float(np.max(np.where(v2 >= 0, T, 0.0)))


def run_eesm(case):
    spec = case["spec"]
    env = sync_env(spec)
    mach = C19.machine(env, spec)
    mp = mach.mp
    lim = dict(zip(env.state_names, env.limits))
    key = ("eesm", repr(spec["mp"]))
    if key not in _CACHE:
        _CACHE[key] = stage_of("EESM")
        _CACHE[key].tune(env, spec["id"], 0.2)
    ops = _CACHE[key]
    ops.reset()
    i_max, e_max = lim["i_sd"] * 0.8, lim["i_e"] * 0.8
    t_all = eesm_reach(mp, i_max, e_max, np.inf)
    seen = set()
    for om, t, u, restart in case["req"]:
        if restart:
            ops.reset()
        omega, T = om / 1000 * lim["omega"], t / 1000 * lim["torque"]
        x = state_vector(env, omega=omega, u_sd=u / 1000 * lim["u_sd"] * 0.7, u_sq=u / 1000 * lim["u_sq"] * 0.7)
        psi_max = float(copy.deepcopy(ops).modulation_control(x.copy()))
        i = call(ops, x, T)
        got = float(mach.torque(np.r_[i, 0.0]))
        what = f"EESM at {omega} 1/s: {i} A yield {got} Nm for the request {T} Nm"
        res = 0.03 * lim["torque"]
        check(abs(got) <= abs(T) + res, what + ": too much torque", "eesm:more")
        check(got * T >= -res * abs(T), what + ": wrong sign", "eesm:sign")
        check(np.hypot(i[0], i[1]) <= i_max * 1.01 and -1e-9 <= i[2] <= e_max * 1.01, what + f", limits {i_max}, {e_max}", "eesm:current")
        reach = eesm_reach(mp, i_max, e_max, psi_max)
        psi = float(np.hypot(mp["l_d"] * i[0] + mp["l_m"] * i[2], mp["l_q"] * i[1]))
        check(psi <= psi_max + 0.03 * (mp["l_m"] * e_max + mp["l_d"] * i_max), what + f": flux {psi}, available {psi_max}", "eesm:flux")
        if abs(T) <= 0.9 * reach - 0.03 * t_all:
            check(abs(got - T) <= res, what + f" although {reach} Nm are reachable", "eesm:torque")
            seen.add("reachable")
        else:
            check(abs(got) >= 0.85 * min(abs(T), reach) - 0.05 * t_all, what + f" although {reach} Nm are reachable", "eesm:less")
            seen.add("limited")
    return {"reachable", "limited"} <= seen, sorted(seen)


# --------------------------------------------------------------------------------------------- SCIM
@st.composite
def scim_cases(draw):
    mp = st.fixed_dictionaries(
        {},
        optional={n: st.integers(-6, 6) for n in ("l_m", "l_sigs", "l_sigr", "r_s", "r_r")} | dict(p=st.integers(1, 4)),
    )
    spec = dict(id="Cont-TC-SCIM-v0", mp=draw(mp), f=draw(st.sampled_from([None, None, 0.5, 2])))
    steps = st.tuples(SPEEDS, g.whole(-1500, 1500), st.integers(20, 1000), st.booleans()).map(list)
    return dict(spec=spec, margin=draw(st.sampled_from([0.2, 0.0, 0.5])), steps=draw(st.lists(steps, min_size=1, max_size=8)))


def scim_parameters(mp):
    ls, lr, lm = mp["l_m"] + mp["l_sigs"], mp["l_m"] + mp["l_sigr"], mp["l_m"]
    return ls, lr, lm, 1.5 * mp["p"] * lm / lr, mp["r_s"] + mp["r_r"] * lm**2 / lr**2


def run_scim(case):
    spec, margin = case["spec"], case["margin"]
    env = sync_env(spec)
    mp = env.physical_system.electrical_motor.motor_parameter
    ls, lr, lm, c_t, r = scim_parameters(mp)
    lim = dict(zip(env.state_names, env.limits))
    nom = dict(zip(env.state_names, env.physical_system.nominal_state))
    ops = stage_of("SCIM")
    ops.tune(env, spec["id"], margin)
    ops.reset()
    i_max = lim["i_sd"] * (1 - margin)
    seen = set()
    for om, t, f, restart in case["steps"]:
        if restart:
            ops.reset()
        omega, T, psi = om / 1000 * lim["omega"], t / 1000 * lim["torque"], f / 1000 * lim["psi_abs"]
        x = state_vector(env, omega=omega, psi_abs=psi)
        i_d, i_q = call(ops, x, T)
        got = c_t * psi * i_q
        what = f"SCIM at {omega} 1/s and {psi} Vs: {i_d}, {i_q} A yield {got} Nm for the request {T} Nm"
        check(np.hypot(i_d, i_q) <= i_max * (1 + 1e-9), what + f", limit {i_max}", "scim:current")
        check(got * T >= 0 and abs(got) <= abs(T) * (1 + 1e-9), what, "scim:more")
        # torque of the loss-optimal flux at the nominal voltage and speed
        psi_opt = lm * min(np.sqrt(abs(T) / (c_t * lm) * np.sqrt(r / mp["r_s"])), lim["i_sd"])
        left = (nom["u_sd"] / nom["omega"] / ls) ** 2 - (psi_opt / lm) ** 2
        t_nom = c_t * psi_opt * np.sqrt(max(left, 0.0))
        free = np.sqrt(max(i_max**2 - i_d**2, 0.0))
        if abs(om) <= 20 and abs(t) >= 5 and abs(T) <= min(0.97 * t_nom, lim["torque"]):
            want = min(abs(T), c_t * psi * min(free, i_max))
            check(abs(abs(got) - want) <= 1e-6 * abs(T) + 1e-9, what + f" although {want} Nm are reachable", "scim:torque")
            seen.add("exact" if want == abs(T) else "current limit")
    return bool(T) and "exact" in seen, sorted(seen)


@st.composite
def flux_cases(draw):
    case = draw(scim_cases())
    del case["steps"]
    case["T"] = draw(st.one_of(st.just(0), g.whole(-1000, 1000)))
    case["psi"] = draw(g.whole(0, 1000))
    return case


def run_flux(case):
    """At standstill the flux settles at the value with the least copper losses."""
    spec = case["spec"]
    env = sync_env(spec)
    mp = env.physical_system.electrical_motor.motor_parameter
    ls, lr, lm, c_t, r = scim_parameters(mp)
    lim = dict(zip(env.state_names, env.limits))
    ops = stage_of("SCIM")
    ops.tune(env, spec["id"], case["margin"])
    ops.reset()
    T, psi = case["T"] / 1000 * lim["torque"], case["psi"] / 1000 * lim["psi_abs"]
    best = lm * np.sqrt(abs(T) / (c_t * lm) * np.sqrt(r / mp["r_s"]))
    i_max = lim["i_sd"] * (1 - case["margin"])
    if best / lm > 0.95 * i_max:
        return False, ["not reachable"]
    tau = env.physical_system.tau
    dec = np.exp(-tau * mp["r_r"] / lr)
    x = state_vector(env)
    k = env.state_names.index("psi_abs")
    r_ = np.array([T])
    n = min(int(12 * lr / mp["r_r"] / tau), 40000)
    for _ in range(n):
        x[k] = psi
        i_d = float(ops(x, r_)[0])
        psi = abs(psi * dec + lm * i_d * (1 - dec))
    check(
        abs(psi - best) <= 0.03 * best + 0.02 * lm * i_max,
        f"SCIM at {T} Nm: the flux is {psi} Vs after {n} steps, the losses are minimal for {best} Vs",
        "scim:flux",
    )
    return T != 0, ["torque" if T else "no torque"]


# --------------------------------------------------------------------------------------------- complete controllers
ALL = [i for i in C19.CONT + C19.DCF if g.split(i)[1] in ("TC", "SC") and g.split(i)[2] != "EESM"]


@st.composite
def complete_cases(draw):
    return dict(
        spec=draw(C19.drives(ALL)),
        margin=draw(st.sampled_from([0.2, 0.2, 0.0, 0.5])),
        hist=draw(C19.HIST),
    )


def run_complete(case):
    spec, margin = case["spec"], case["margin"]
    act, task, motor = g.split(spec["id"])
    env = C19.build(spec)
    mk = lambda: gc.GemController.make(env, spec["id"], current_safety_margin=margin, block_diagram=False)  # noqa: E731
    ctl, new = mk(), mk()
    ctl.reset()
    new.reset()
    names = CC[motor]
    lo, hi, lim = C19.ranges(env, names, margin)
    seen = [0, 0]
    fresh = True
    for step in case["hist"]:
        if step == "reset":
            ctl.reset()
            new = mk()
            new.reset()
            fresh = True
            continue
        if step == "again":
            continue
        obs = C19.observation(env, step[0])
        r = np.array(step[1][:1]) / 1000 * min(step[2] * 10, 1)
        ctl.control(obs.copy(), r.copy())
        new.control(obs.copy(), r.copy())
        tc = ctl.controller if task == "TC" else ctl.controller.torque_controller
        tn = new.controller if task == "TC" else new.controller.torque_controller
        i = np.array(tc.current_reference, float)
        check(i.shape == (len(names),) and np.all(np.isfinite(i)), f"{spec['id']}: current reference {i}", "complete:finite")
        # nearest to the request of the operating point selection
        want = C19.limited(C19.clip_kind(motor), i, lo, hi, lim, margin)
        check(C19.near(i, want), lambda: f"{spec['id']}: current reference {i} beyond {lo} .. {hi}", "complete:limit")
        check(np.array_equal(i, tn.current_reference), lambda: f"{spec['id']}: {i}, after a reset {tn.current_reference}", "complete:reset")
        size = np.max(np.abs(i) / lim / (1 - margin)) if C19.clip_kind(motor) == "abs" else np.hypot(*(i / lim)) / (1 - margin)
        seen[int(size > 1 - 1e-6)] += 1
        fresh = False
    return min(seen) > 0 or (sum(seen) > 3 and motor in ("SCIM", "SynRM", "PMSM")), [motor, task]


SUBS = [
    Sub("dc", dc_cases(), run_dc, quick=400, shards=2),
    Sub("sync", sync_cases(), run_sync, quick=300, shards=4),
    Sub("table", table_cases(), run_sync, quick=60, shards=2, cpu_s=60),
    Sub("mod", mod_cases(), run_mod, quick=200, shards=2),
    Sub("eesm", eesm_cases([{}]), run_eesm, quick=60, shards=1, cpu_s=200),
    Sub("scim", scim_cases(), run_scim, quick=120, shards=2),
    Sub("flux", flux_cases(), run_flux, quick=16, thorough=300, shards=4, cpu_s=60),
    Sub("complete", complete_cases(), run_complete, quick=200, shards=4),
]
