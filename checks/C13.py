"""C13: limits, nominal values and the normalisation of the state."""
import math

import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import physical_systems as ps
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, check

PROPERTY = "C13"
RULE = (
    "values: one of the 54 environments with user-given partial limit and nominal dictionaries (any subset and order of "
    "the documented keys), motor parameters, supply voltage and load limit, every limit and nominal value compared with "
    "the given or documented derived value; non-trivial if a value was given. derived: motors with limits marked as "
    "unbounded (0). scaling: the same drive with two sets of limits; report: the reported state against the solver's "
    "state; both non-trivial if at least 5 steps with a non-zero input ran."
)
U_SUP = {"PMSM": (420.0, 300.0), "EESM": (420.0, 300.0)}
KEYS = {
    "PermExDc": ["omega", "torque", "i", "u"],
    "ExtExDc": ["omega", "torque", "i", "i_a", "i_e", "u", "u_a", "u_e"],
    "SeriesDc": ["omega", "torque", "i", "i_a", "i_e", "u", "u_a", "u_e"],
    "ShuntDc": ["omega", "torque", "i", "i_a", "i_e", "u", "u_a", "u_e"],
    "PMSM": ["omega", "torque", "i", "epsilon", "u"],
    "SynRM": ["omega", "torque", "i", "epsilon", "u"],
    "SCIM": ["omega", "torque", "i", "epsilon", "u"],
    "DFIM": ["omega", "torque", "i", "epsilon", "u"],
    "EESM": ["omega", "torque", "i", "i_e", "epsilon", "u"],
}
# documented limits and nominal values of the default motors
DC_LIM = dict(omega=400, torque=38.0, i=210, i_a=210, i_e=210, u=60, u_a=60, u_e=60)
DC_NOM = dict(omega=300, torque=16.0, i=97, i_a=97, i_e=97, u=60, u_a=60, u_e=60)
PI = math.pi
LIM = {
    "PMSM": dict(omega=4000 * PI / 30, i=400, epsilon=PI, u=300),
    "SynRM": dict(omega=4300 * PI / 30, i=18, epsilon=PI, u=80),
    "EESM": dict(omega=12e3 * PI / 30, i=150, i_e=150, epsilon=PI, u=320),
    "SCIM": dict(omega=4000 * PI / 30, i=5.5, epsilon=PI, u=560),
    "DFIM": dict(omega=1800 * PI / 30, i=9, epsilon=PI, u=720),
}
NOM = {
    "PMSM": dict(omega=3000 * PI / 30, i=240, epsilon=PI, u=300),
    "SynRM": dict(omega=3000 * PI / 30, i=10, epsilon=PI, u=80),
    "EESM": dict(omega=4.3e3 * PI / 30, i=120, i_e=150, epsilon=PI, u=320),
    "SCIM": dict(omega=3000 * PI / 30, i=3.9, epsilon=PI, u=560),
    "DFIM": dict(omega=1650 * PI / 30, i=7.5, epsilon=PI, u=720),
}
for m in g.DC:
    LIM[m] = {k: v for k, v in DC_LIM.items() if k in KEYS[m]}
    NOM[m] = {k: v for k, v in DC_NOM.items() if k in KEYS[m]}


def tmax(motor, mp, i, i_e=0.0):
    """Largest torque of a synchronous machine with a stator current of amplitude i"""
    psi = mp.get("psi_p", 0.0) if motor != "EESM" else mp["l_m"] * i_e
    d = mp["l_d"] - mp["l_q"]
    if d == 0:
        return 1.5 * mp["p"] * psi * i
    h = psi / (4 * d)
    s = math.sqrt(h * h + i * i / 2)
    i_d = -h + s if d > 0 else -h - s
    return 1.5 * mp["p"] * (psi + d * i_d) * math.sqrt(max(0.0, i * i - i_d * i_d))


def torque_limit(motor, mp, lim, nom):
    """(lo, hi) of the derived torque limit of a three-phase machine with completed current limits"""
    if motor in ("SCIM", "DFIM"):
        t = 1.5 * mp["p"] * mp["l_m"] ** 2 / (mp["l_m"] + mp["l_sigr"]) * lim["i"] ** 2 / 2
        return t, t
    if motor == "SynRM":
        t = 1.5 * mp["p"] * abs(mp["l_d"] - mp["l_q"]) * lim["i"] ** 2 / 2
        return t, t
    a, b = sorted([lim["i"], nom["i"]])
    if motor == "PMSM":
        # the sources do not say whether the limit or the nominal current is meant
        return tmax(motor, mp, a), tmax(motor, mp, b)
    return 0.0, tmax(motor, mp, b, lim["i_e"])


def expected(motor, mp, g_lim, g_nom):
    """Given the user's entries: {name: (lo, hi)} for limits and nominal values of all state variables."""
    lim = {**LIM[motor], **g_lim}
    nom = {**NOM[motor], **g_nom}
    if motor in g.DC:
        return {k: (v, v) for k, v in lim.items()}, {k: (v, v) for k, v in nom.items()}
    L, N = {}, {}
    for s in g.SYSTEM_STATES[motor]:
        if s in ("omega", "epsilon") or (s == "i_e"):
            L[s], N[s] = lim[s], nom[s]
        elif s.startswith("i_"):
            L[s], N[s] = lim["i"], nom["i"]
        elif s == "u_sup":
            continue
        elif s.startswith("u_"):
            L[s], N[s] = 0.5 * lim["u"], 0.5 * nom["u"]
    L, N = {k: (v, v) for k, v in L.items()}, {k: (v, v) for k, v in N.items()}
    L["torque"] = (lim["torque"],) * 2 if lim.get("torque") else torque_limit(motor, mp, lim, nom)
    N["torque"] = (nom["torque"],) * 2 if nom.get("torque") else L["torque"]
    return L, N


def near(v, rng, rtol=1e-9):
    return rng[0] * (1 - rtol) <= v <= rng[1] * (1 + rtol)


def _given(case, motor):
    keys = KEYS[motor]
    gl = {keys[i % len(keys)]: None for i in case["lim"]}
    gl = {k: _value(motor, k) * case["sl"][keys.index(k) % len(case["sl"])] for k in gl}
    gn = {keys[i % len(keys)]: None for i in case["nom"]}
    base = {**LIM[motor], **{k: v for k, v in gl.items()}}
    gn = {
        k: _value(motor, k, base) * (0.3 + 0.7 * case["sn"][keys.index(k) % len(case["sn"])]) for k in gn
    }
    return gl, gn


def _value(motor, k, base=None):
    if k == "torque":
        return (base or {}).get("torque") or {"PMSM": 160, "SynRM": 5.8, "EESM": 129, "SCIM": 6.2, "DFIM": 33}.get(motor, 38.0)
    return (base or LIM[motor])[k]


def run_values(case):
    act, task, motor = g.split(case["id"])
    mp = g.mp_from(motor, case["mp"])
    gl, gn = _given(case, motor)
    mot = g.MOTOR_CLS[motor](motor_parameter=mp, limit_values=dict(gl), nominal_values=dict(gn))
    if motor == "EESM":
        mp = dict(mp)
    L, N = expected(motor, mp, gl, gn)
    for what, got, want in (("limit", mot.limits, L), ("nominal value", mot.nominal_values, N)):
        for k, rng in want.items():
            v = got.get(k)
            check(
                v is not None and math.isfinite(v) and v > 0 and near(v, rng),
                lambda: f"{motor}: {what} of {k} is {v} instead of {rng}; given limits {gl}, nominal {gn}, parameters {mp}",
            )
    # user values exactly
    for k, v in gl.items():
        check(mot.limits[k] == v, lambda: f"{motor}: limit of {k} given as {v} is {mot.limits[k]}")
    for k, v in gn.items():
        check(mot.nominal_values[k] == v, lambda: f"{motor}: nominal value of {k} given as {v} is {mot.nominal_values[k]}")
    # the drive
    kw = dict(motor=mot)
    om_lim = om_nom = None
    if case["load"]:
        om_lim = L["omega"][0] * case["load"]
        kw["load"] = ps.PolynomialStaticLoad(load_parameter=dict(a=0.1), limits=dict(omega=om_lim))
        if case["nomload"]:
            # a load of the user can have nominal values, too
            om_nom = N["omega"][0] * case["nomload"]

            class Load(ps.PolynomialStaticLoad):
                nominal_values = property(lambda self: dict(omega=om_nom))

            kw["load"] = Load(load_parameter=dict(a=0.1), limits=dict(omega=om_lim))
    env = g.build(dict(id=case["id"], supply=dict(kind="ideal", u=case["u"])), **kw)
    y = env.physical_system
    lim, nom = dict(zip(y.state_names, y.limits)), dict(zip(y.state_names, y.nominal_state))
    check(
        np.isfinite(y.limits).all() and (np.asarray(y.limits) > 0).all() and np.isfinite(y.nominal_state).all()
        and (np.asarray(y.nominal_state) > 0).all(),
        lambda: f"{case['id']}: limits {lim}, nominal values {nom} are not all positive and finite",
    )
    for s in g.SYSTEM_STATES[motor]:
        if s == "u_sup":
            check(
                lim[s] == nom[s] == case["u"],
                lambda: f"{case['id']}: supply {case['u']} V, but the limit of u_sup is {lim[s]}, nominal {nom[s]}",
            )
            continue
        want = L[s]
        if s == "omega" and om_lim is not None:
            want = (min(want[0], om_lim),) * 2
        check(near(lim[s], want), lambda: f"{case['id']}: limit of {s} in the drive is {lim[s]} instead of {want}; given {gl}")
        wantn = N[s]
        if s == "omega" and om_nom is not None:
            wantn = (min(wantn[0], om_nom),) * 2
        check(near(nom[s], wantn), lambda: f"{case['id']}: nominal value of {s} in the drive is {nom[s]} instead of {wantn}; given {gn}")
    # state space: AC quantities have both signs, DC quantities those the converter can produce
    low, high = dict(zip(y.state_names, y.state_space.low)), dict(zip(y.state_names, y.state_space.high))
    for s in g.SYSTEM_STATES[motor]:
        check(high[s] == 1.0, lambda: f"{case['id']}: upper bound of {s} is {high[s]}")
        if motor not in g.DC:
            check(low[s] == (0.0 if s == "u_sup" else -1.0), lambda: f"{case['id']}: lower bound of {s} is {low[s]}")
        else:
            check(low[s] in (0.0, -1.0), lambda: f"{case['id']}: lower bound of {s} is {low[s]}")
    return bool(gl or gn), [motor] + [f"given:{k}" for k in gl] + [f"nom:{k}" for k in gn]


values = st.fixed_dictionaries(
    dict(
        id=g.ids,
        mp=st.just({}),
        lim=st.lists(st.integers(0, 39), max_size=4),
        nom=st.lists(st.integers(0, 39), max_size=4),
        sl=st.lists(g.f(0.2, 4), min_size=1, max_size=5),
        sn=st.lists(g.f(0, 1), min_size=1, max_size=5),
        u=st.sampled_from([12.0, 60.0, 420.0, 540.0]),
        load=st.one_of(st.just(0), g.f(0.1, 3)),
        nomload=st.one_of(st.just(0), g.f(0.1, 3)),
    )
).flatmap(lambda d: st.builds(lambda mp: {**d, "mp": mp}, g.mp_scale(g.split(d["id"])[2])))


# ------------------------------------------------------------------------------------------- derived values (0 = unbounded)
def run_derived(case):
    motor = case["motor"]
    mp = g.mp_from(motor, case["mp"])
    lim = {**LIM[motor]}
    gl = {}
    if motor in g.DC:
        if case["u0"]:  # unbounded voltage, bounded currents
            gl.update({k: 0 for k in ("u", "u_a", "u_e") if k in lim})
        elif case["i0"]:
            gl.update({k: 0 for k in ("i", "i_a", "i_e") if k in lim})
    elif case["i0"]:  # unbounded stator currents
        gl["i"] = 0
    if case["w0"]:
        gl["omega"] = 0
    gl["torque"] = 0
    if case["i"] and not case["i0"]:
        gl.update({k: lim[k] * case["i"] for k in ("i", "i_a", "i_e") if k in lim})
    if case["u"] and not case["u0"]:
        gl.update({k: lim[k] * case["u"] for k in ("u", "u_a", "u_e") if k in lim})
    keys = list(gl)[:: -1 if case["rev"] else 1]
    gl = {k: gl[k] for k in keys}
    nl = dict(torque=0) if case["n0"] else {}
    if case["ni0"] and motor not in g.DC:
        nl["i"] = 0
    mot = g.MOTOR_CLS[motor](motor_parameter=mp, limit_values=dict(gl), nominal_values=dict(nl) if nl or case["w0"] else None)
    got = mot.limits
    want = {}
    want["omega"] = LIM[motor]["omega"]
    if motor in g.DC:
        full = {**lim, **gl}
        u = full["u"] or 60.0
        for k in ("u", "u_a", "u_e"):
            if k in full and k in g.SYSTEM_STATES[motor]:
                want[k] = full[k] or 60.0
        if case["i0"] and not case["u0"]:
            if motor == "PermExDc":
                want["i"] = u / mp["r_a"]
            elif motor == "SeriesDc":
                want["i"] = u / (mp["r_a"] + mp["r_e"])
            else:
                want["i_a"], want["i_e"] = u / mp["r_a"], u / mp["r_e"]
        else:
            for k in ("i", "i_a", "i_e"):
                if k in full:
                    want[k] = full[k]
        mach = M.Machine(motor, mp)
        x = [want["i"]] if motor in ("PermExDc", "SeriesDc") else [want["i_a"], want["i_e"]]
        want["torque"] = mach.torque(np.array(x))
    for k, v in want.items():
        check(
            math.isclose(got[k], v, rel_tol=1e-9),
            lambda: f"{motor}: derived limit of {k} is {got[k]} instead of {v}; given {gl}, parameters {mp}",
        )
    if motor not in g.DC:
        full, nom = {**lim, **gl}, dict(NOM[motor])
        r = [mp["r_s"]] + ([mp["r_r"]] if motor == "DFIM" else [])
        if case["i0"]:
            # what the available voltage can drive through the winding
            check(
                any(math.isclose(got["i"], full["u"] / 2 / x, rel_tol=1e-9) for x in r),
                lambda: f"{motor}: derived current limit {got['i']} with {full['u'] / 2} V at {r} Ohm",
            )
            full["i"] = got["i"]
        if case["ni0"]:
            check(
                any(math.isclose(mot.nominal_values["i"], min(full["i"], 0.5 * nom["u"] / x), rel_tol=1e-9) for x in r),
                lambda: f"{motor}: derived nominal current {mot.nominal_values['i']}, limit {full['i']}, {nom['u'] / 2} V at {r} Ohm",
            )
            nom["i"] = mot.nominal_values["i"]
        for k in got:
            if k.startswith("i_") and k != "i_e":
                check(
                    got[k] == full["i"] and mot.nominal_values[k] == nom["i"],
                    lambda: f"{motor}: limit and nominal value of {k} are {got[k], mot.nominal_values[k]}, those of the currents {full['i'], nom['i']}",
                )
        rng = torque_limit(motor, mp, full, nom)
        check(
            got["torque"] > 0 and near(got["torque"], rng),
            lambda: f"{motor}: derived torque limit {got['torque']} instead of {rng}; given {gl}, parameters {mp}",
        )
    if case["n0"]:
        check(
            mot.nominal_values["torque"] == got["torque"],
            lambda: f"{motor}: an unspecified nominal torque is {mot.nominal_values['torque']}, not the limit {got['torque']}",
        )
    return True, [motor, "i0" if case["i0"] else "u0" if case["u0"] else "torque"]


derived = st.sampled_from(g.MOTORS).flatmap(
    lambda m: st.fixed_dictionaries(
        dict(
            motor=st.just(m), mp=g.mp_scale(m), u0=st.booleans(), i0=st.booleans(), w0=st.booleans(), rev=st.booleans(),
            n0=st.booleans(), ni0=st.booleans(), i=st.one_of(st.just(0), g.f(0.2, 3)), u=st.one_of(st.just(0), g.f(0.2, 3)),
        )
    ).filter(lambda d: not (d["u0"] and d["i0"]))
)  # fmt: skip


# ------------------------------------------------------------------------------------------- metamorphic: limits only scale
def _phys(case, scale):
    act, task, motor = g.split(case["id"])
    keys = [k for k in KEYS[motor] if k != "epsilon"]
    lim = {k: _value(motor, k) * scale[keys.index(k) % len(scale)] for k in keys}
    # initial speeds up to the default nominal speed stay admissible
    lim["omega"] = LIM[motor]["omega"] * max(1.0, scale[0])
    nom = {k: 0.9 * min(v, _value(motor, k)) for k, v in lim.items() if k != "omega"}
    spec = dict(case["spec"], id=case["id"], limits=lim, nominal=nom, constraints=[], solver="euler")
    spec["mp"] = spec.get("mp") or dict(j_rotor=0)
    spec["ref"] = dict(kind="const", state="omega", kw=dict(reference_value=0.5))
    env = g.build(spec)
    y = env.physical_system
    env.reset(seed=3)
    out = []
    for a in g.expand(env.action_space, case["plan"]):
        (s, r), _, term, _, _ = env.step(a)
        v = np.asarray(s) * np.asarray(y.limits)
        if not np.isfinite(v).all() or np.abs(v).max() > 1e9:
            break
        out.append(v)
    return y, np.array(out)


def run_scaling(case):
    motor = g.split(case["id"])[2]
    y1, a = _phys(case, [1.0])
    y2, b = _phys(case, case["scale"])
    n = min(len(a), len(b))
    if n == 0:
        return False, [motor, "no-step"]
    a, b = a[:n], b[:n]
    size = np.abs(a).max(axis=0) + np.asarray(y1.limits) * 1e-3
    # the angle may wrap on either side of the boundary
    idx = [i for i, s in enumerate(y1.state_names) if s != "epsilon"]
    d = np.abs(a - b)[:, idx] / size[idx]
    k, j = np.unravel_index(np.argmax(d), d.shape)
    check(
        d[k, j] < 1e-6,
        lambda: f"{case['id']}: other limits change the physical trajectory: {y1.state_names[idx[j]]} is {a[k, idx[j]]} and "
        f"{b[k, idx[j]]} in step {k + 1}; scale {case['scale']}",
    )
    return n >= 5 and np.abs(a).max() > 0, [motor]


scaling = st.fixed_dictionaries(
    dict(
        id=g.ids,
        spec=st.just({}),
        scale=st.lists(g.f(0.3, 3, 2), min_size=1, max_size=7),
        plan=g.segments(8, 8),
    )
).flatmap(
    lambda d: g.specs([d["id"]], features=("load", "supply", "lock", "mp"), p_feature=0.5)
    .filter(lambda s: not (s.get("load") or {}).get("init"))
    .map(lambda s: {**d, "spec": {k: v for k, v in s.items() if k != "id"}})
)


# ------------------------------------------------------------------------------------------- reported state x limits
def run_report(case):
    spec = dict(case["spec"])
    act, task, motor = g.split(spec["id"])
    gl, gn = {}, {}
    keys = [k for k in KEYS[motor] if k not in ("epsilon", "torque")]
    for k in keys:
        s = case["sl"][keys.index(k) % len(case["sl"])]
        gl[k] = LIM[motor][k] * (max(1.0, s) if k == "omega" else s)
        gn[k] = min(NOM[motor][k], gl[k])
    spec["limits"], spec["nominal"] = gl, gn
    spec["mp"] = spec.get("mp") or dict(j_rotor=0)  # the parameters of gemlib (passive EESM)
    spec["constraints"] = []
    sol = g.solver(spec.pop("solver", None) or "euler")
    env = g.build(spec, ode_solver=sol)
    y = env.physical_system
    mp = g.mp_from(motor, spec.get("mp", {}))
    mach = M.Machine(motor, mp)
    lim = dict(zip(y.state_names, y.limits))
    names = g.CURRENTS[motor] if motor not in g.IND else []
    env.reset(seed=case["seed"])
    n, moved = 0, False
    ld = y.mechanical_load
    for a in [None] + list(g.expand(env.action_space, case["plan"])):
        if a is None:
            (s, _), _ = env.reset()
        else:
            (s, _), _, _, _, _ = env.step(a)
            n += 1
        s = dict(zip(y.state_names, s))
        x = np.asarray(sol.y, float)
        if not np.isfinite(x).all() or np.abs(x).max() > 1e8:
            break
        # the mechanical states in front, whatever their number
        mech = list(ld.state_names)
        want = {k: x[i] for i, k in enumerate(mech)}
        x = np.concatenate([[want["omega"]], x[len(mech) :]])
        want.update({k: x[1 + i] for i, k in enumerate(names)})
        want["torque"] = float(mach.torque(x[1 : 1 + mach.n_states()]))
        for k, v in want.items():
            got = s[k] * lim[k]
            tol = 1e-9 * abs(v) + 1e-9
            if k == "torque":
                xa = np.abs(x[1:])
                tol += 1e-9 * (xa.max() ** 2 + xa.max()) * max(abs(c) for c in mp.values() if c < 10)
            check(
                abs(got - v) <= tol,
                lambda: f"{spec['id']}: reported {k} times its limit is {got}, but the simulated value is {v} (step {n})",
            )
        if "epsilon" in s:
            d = M.wrap(s["epsilon"] * lim["epsilon"] - x[-1])
            check(abs(d) < 1e-7 + 1e-9 * abs(x[-1]), lambda: f"{spec['id']}: reported angle {s['epsilon'] * lim['epsilon']} instead of {x[-1]}")
        moved = moved or abs(x[1:]).max() > 0
    return n >= 5 and moved, [motor]


report = st.fixed_dictionaries(
    dict(
        spec=g.specs(features=("tau", "solver", "lock", "supply", "load", "mp"), p_feature=0.4).filter(
            lambda s: not (s.get("load") or {}).get("init") and "wrappers" not in s
        ),
        sl=st.lists(g.f(0.3, 3, 2), min_size=1, max_size=6),
        seed=st.integers(0, 99),
        plan=g.segments(8, 8),
    )
)

SUBS = [
    Sub("values", values, run_values, 1600, shards=3),
    Sub("derived", derived, run_derived, 1200, shards=1),
    Sub("scaling", scaling, run_scaling, 300, shards=4),
    Sub("report", report, run_report, 300, shards=4),
]
