"""C14: references stay in range, have the configured shape and announce the next step's target."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.signal import sawtooth

from gym_electric_motor import reference_generators as rgs
from lib import gemlib as g
from lib.harness import Sub, Violation, check

PROPERTY = "C14"
RULE = (
    "space: one generator on one of the 54 drives with any referenced state and margin setting, several episodes; every "
    "reference against the declared space, the margins and the announcement (non-trivial if at least 20 references were "
    "drawn). periodic: sinus, triangle, sawtooth and step segments reconstructed from their samples and compared with "
    "the amplitude, frequency and offset ranges. walk: increments of Wiener and Laplace walks standardised with the step "
    "width. lengths: segment boundaries of a sinus with known parameters against the configured interval. combine: "
    "switched and multiple generators against the recorded outputs of their sub generators. env: the rewards of complete "
    "environments against the announced references."
)
CLS = dict(
    const=rgs.ConstReferenceGenerator, wiener=rgs.WienerProcessReferenceGenerator,
    laplace=rgs.LaplaceProcessReferenceGenerator, sinus=rgs.SinusoidalReferenceGenerator,
    triangle=rgs.TriangularReferenceGenerator, saw=rgs.SawtoothReferenceGenerator, step=rgs.StepReferenceGenerator,
)  # fmt: skip
_DRIVES = {}


def drive(env_id, tau=None):
    """A physical system, used read-only."""
    if (env_id, tau) not in _DRIVES:
        _DRIVES[env_id, tau] = g.build(dict(id=env_id, **({"tau": tau} if tau else {}))).physical_system
    return _DRIVES[env_id, tau]


def margins(y, state, lm):
    i = list(y.state_names).index(state)
    lo, hi = y.state_space.low[i], y.state_space.high[i]
    if lm is None:
        m = y.nominal_state[i] / y.limits[i]
        return m * lo, m * hi
    if isinstance(lm, (list, tuple)):
        return abs(lm[0]) * lo, lm[1] * hi
    return lm * lo, lm * hi


def make(kind, state, kw, y, seed):
    kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in kw.items()}
    rg = CLS[kind](reference_state=state, **kw)
    rg.set_modules(y)
    if hasattr(rg, "seed"):
        rg.seed(np.random.SeedSequence(seed))
    return rg


def draw(rg, y, n, reset=True, ref0=None):
    """n observations; checks the announcement relation.  Returns (first reference, observations)."""
    state = np.zeros(len(y.state_names))
    first, obs, _ = rg.reset(state) if ref0 is None else rg.reset(state, ref0)
    mask = np.asarray(rg.referenced_states)
    out = [np.array(obs, float)]
    check(
        np.array_equal(mask, [s in rg.reference_names for s in y.state_names]),
        lambda: f"referenced states {mask}, names {rg.reference_names}",
    )
    check(np.shape(first) == (len(y.state_names),) and not np.any(np.asarray(first)[~mask]), lambda: f"reference {first} after the reset")
    for _ in range(n):
        r = np.array(rg.get_reference(state), float)
        check(
            r.shape == mask.shape and not r[~mask].any(),
            lambda: f"reference {r}: not zero for states that are not referenced ({mask})",
        )
        order = [list(y.state_names).index(s) for s in rg.reference_names]
        check(
            np.array_equal(r[order], out[-1]),
            lambda: f"announced {out[-1]}, but the reference of the next step is {r[order]} for {rg.reference_names}",
        )
        obs = np.array(rg.get_reference_observation(state), float)
        check(
            rg.reference_space.shape == obs.shape
            and (obs >= rg.reference_space.low - 1e-12).all()
            and (obs <= rg.reference_space.high + 1e-12).all(),
            lambda: f"{type(rg).__name__}: reference observation {obs} outside of the reference space {rg.reference_space}",
        )
        out.append(obs)
    return np.array(first, float), np.array(out)


# ------------------------------------------------------------------------------------------------------------ space
def run_space(case):
    y = drive(case["id"])
    names = [s for s in g.SYSTEM_STATES[g.split(case["id"])[2]] if s != "u_sup"]
    state = names[case["state"] % len(names)]
    i = list(y.state_names).index(state)
    kind, kw = case["kind"], dict(case["kw"])
    lo, hi = margins(y, state, kw.get("limit_margin"))
    if "amplitude_range" in kw:
        kw["amplitude_range"] = [a * (hi - lo) for a in kw["amplitude_range"]]
    if "offset_range" in kw:
        kw["offset_range"] = [lo + a * (hi - lo) for a in kw["offset_range"]]
    if "initial_range" in kw:
        kw["initial_range"] = [lo + a * (hi - lo) for a in kw["initial_range"]]
    rg = make(kind, state, kw, y, case["seed"])
    check(list(rg.reference_names) == [state], lambda: f"reference names {rg.reference_names} for {state}")
    check(
        np.allclose(rg.reference_space.low, lo, rtol=1e-12, atol=0) and np.allclose(rg.reference_space.high, hi, rtol=1e-12, atol=0),
        lambda: f"{case['id']}/{state}: reference space {rg.reference_space} instead of [{lo}, {hi}]",
    )
    firsts, total = [], 0
    for n in case["episodes"]:
        first, out = draw(rg, y, n)
        v0 = first[i]
        firsts.append(v0)
        check(
            (out >= lo - 1e-12).all() and (out <= hi + 1e-12).all() and lo - 1e-12 <= v0 <= hi + 1e-12,
            lambda: f"{kind} reference of {state} leaves the margins [{lo}, {hi}]: {out.min()}..{out.max()}, first {v0}",
        )
        if kind == "wiener":
            a, b = kw.get("initial_range", [lo, hi])
            check(a - 1e-12 <= v0 <= b + 1e-12, lambda: f"initial reference {v0} outside of the initial range [{a}, {b}]")
        elif kind != "const":
            check(v0 == 0.0, lambda: f"first reference of {kind} is {v0}")
        total += len(out)
    return total >= 20, [kind, "lower:" + ("0" if lo == 0 else "neg"), "margin:" + type(kw.get("limit_margin")).__name__]


lm = st.one_of(st.none(), g.f(0.05, 1), st.tuples(g.f(0, 1), g.f(0.05, 1)).map(list), st.just(1))
lens = st.one_of(st.sampled_from([1, 7, 25]), st.tuples(st.integers(1, 10), st.integers(0, 30)).map(lambda t: [t[0], sum(t)]))
rng2 = st.tuples(g.f(0, 1), g.f(0, 1)).map(sorted)
FREQ = st.tuples(g.log(5, 4000), g.f(1, 3)).map(lambda t: [t[0], t[0] * t[1]])
common = dict(episode_lengths=lens)
margin_opt = dict(limit_margin=lm)


def kw_of(kind):
    if kind in ("wiener", "laplace"):
        opt = dict(margin_opt, sigma_range=st.tuples(g.log(1e-4, 1), g.f(1, 10)).map(lambda t: [t[0], t[0] * t[1]]))
        if kind == "wiener":
            opt["initial_range"] = rng2
    else:
        opt = dict(margin_opt, amplitude_range=rng2, offset_range=rng2, frequency_range=FREQ)
    return g.maybe(common, opt)


space = st.sampled_from(["wiener", "laplace", "sinus", "triangle", "saw", "step"]).flatmap(
    lambda k: st.fixed_dictionaries(
        dict(
            id=g.ids, kind=st.just(k), state=st.integers(0, 30), kw=kw_of(k), seed=st.integers(0, 10**6),
            episodes=st.lists(st.integers(1, 80), min_size=1, max_size=3),
        )
    )
)  # fmt: skip


# ---------------------------------------------------------------------------------------------------------- periodic
def est_sinus(s):
    """amplitude, phase step, offset of a sampled sinus (None if not identifiable)"""
    A = np.column_stack([s[1:-1], np.ones(len(s) - 2)])
    b = s[2:] + s[:-2]
    (c, d), *_ = np.linalg.lstsq(A, b, rcond=None)
    res = np.abs(A @ [c, d] - b).max()
    if not -2 < c < 2:
        return res, None
    w = math.acos(c / 2)
    off = d / (2 - c)
    k = np.arange(len(s))
    B = np.column_stack([np.cos(w * k), np.sin(w * k)])
    co, *_ = np.linalg.lstsq(B, s - off, rcond=None)
    return max(res, np.abs(B @ co + off - s).max()), (math.hypot(*co), w, off)


def est_triangle(s):
    """rising step, falling step (absolute), peak (lo, hi) bounds from samples of a triangle; None if not identifiable"""
    d = np.diff(s)
    r, f = d.max(), -d.min()
    return r, f


def in_range(v, rng, tol):
    return rng[0] - tol <= v <= rng[1] + tol


def run_periodic(case):
    y = drive(case["id"], case["tau"])
    tau = y.tau
    names = ["omega", "torque"] + g.CURRENTS[g.split(case["id"])[2]]
    state = names[case["state"] % len(names)]
    lo, hi = margins(y, state, case["margin"])
    span = hi - lo
    kind = case["kind"]
    # ranges that never exceed the margins: amplitude a, offset o with lo <= o - a, o + a <= hi
    a_hi = case["a"][1] * span / 2
    a_lo = min(case["a"][0], case["a"][1]) * span / 2
    mid, slack = (lo + hi) / 2, span / 2 - a_hi
    o = sorted([mid + (2 * u - 1) * slack for u in case["o"]])
    kw = dict(episode_lengths=case["len"], limit_margin=_lm(case["margin"]))
    A_rng, O_rng = [a_lo, a_hi], o
    if case["give_a"]:
        kw["amplitude_range"] = [a_lo, a_hi]
    else:
        A_rng = [0, span / 2]
    if case["give_o"] and case["give_a"]:
        kw["offset_range"] = o
    else:
        O_rng = [lo, hi]
    f_lo = case["f"][0] / tau
    F = [f_lo, f_lo * case["f"][1]] if not case["fix_f"] else [f_lo, f_lo]
    kw["frequency_range"] = F
    rg = make(kind, state, kw, y, case["seed"])
    L, n = case["len"], 0
    _, out = draw(rg, y, L * case["segments"] - 1)
    out = out[:, 0]
    info = lambda: f"{kind} of {state}, tau {tau}, {kw}, margins [{lo}, {hi}]"  # noqa: E731
    used = 0
    for j in range(case["segments"]):
        s = out[j * L : (j + 1) * L]
        check(
            np.ptp(s) <= 2 * A_rng[1] + 1e-9,
            lambda: f"{info()}: peak-to-peak value {np.ptp(s)} exceeds twice the largest amplitude {A_rng[1]}",
        )
        check(
            s.max() <= O_rng[1] + A_rng[1] + 1e-9 and s.min() >= O_rng[0] - A_rng[1] - 1e-9,
            lambda: f"{info()}: values {s.min()}..{s.max()} outside of offset and amplitude ranges {O_rng}, {A_rng}",
        )
        if np.ptp(s) < 0.02 * span:
            continue
        if kind == "sinus":
            res, est = est_sinus(s)
            check(res < 1e-6, lambda: f"{info()}: segment {j} is no sinus (residual {res})")
            if est is None:
                continue
            A, w, O = est
            f = w / (2 * math.pi * tau)
            if A > 0.02 * span and 0.1 < w < 3.0 and L * w > 3:
                check(in_range(f, F, 1e-4 * f), lambda: f"{info()}: frequency {f} of segment {j} outside of {F}")
                check(in_range(A, A_rng, 1e-4), lambda: f"{info()}: amplitude {A} of segment {j} outside of {A_rng}")
                check(in_range(O, O_rng, 1e-4), lambda: f"{info()}: offset {O} of segment {j} outside of {O_rng}")
                used += 1
        elif kind == "saw":
            d = np.diff(s)
            up = d[d > 0]
            down = d[d < 0]
            # a rising ramp with constant slope and drops
            if len(up) < 2 or len(down) < 1 or F[1] * tau > 0.3:
                continue
            check(np.ptp(up) < 1e-9 * span + 1e-12, lambda: f"{info()}: slope of segment {j} varies: {up.min()}..{up.max()}")
            r = up[0]
            check(np.ptp(down) < 1e-9, lambda: f"{info()}: drops of segment {j} differ: {down}")
            A = (r - down[0]) / 2
            f = r / (2 * A * tau)
            check(in_range(A, A_rng, 1e-6), lambda: f"{info()}: amplitude {A} of segment {j} outside of {A_rng}")
            check(in_range(f, F, 1e-6 * f), lambda: f"{info()}: frequency {f} of segment {j} outside of {F}")
            k = int(np.argmin(d)) + 1
            O_lo, O_hi = s[k] + A - 2 * A * f * tau, s[k] + A
            check(
                O_hi >= O_rng[0] - 1e-6 and O_lo <= O_rng[1] + 1e-6,
                lambda: f"{info()}: offset of segment {j} within [{O_lo}, {O_hi}], outside of {O_rng}",
            )
            used += 1
        elif kind == "triangle":
            d = np.diff(s)
            r, f_ = d.max(), -d.min()
            if r <= 0 or f_ <= 0:
                continue
            # rising and falling slope, both seen undisturbed (in two successive steps)
            up, dn = np.abs(d - r) < 1e-9 * span, np.abs(d + f_) < 1e-9 * span
            if not (up[1:] & up[:-1]).any() or not (dn[1:] & dn[:-1]).any():
                continue
            # 2 A = rise * w T / tau = fall * (1 - w) T / tau
            amp = lambda f: 1 / (2 * f * tau * (1 / r + 1 / f_))  # noqa: E731
            A1, A2 = amp(F[1]), amp(F[0])
            check(
                A2 >= A_rng[0] - 1e-6 and A1 <= A_rng[1] + 1e-6,
                lambda: f"{info()}: amplitude of segment {j} within [{A1}, {A2}], outside of {A_rng}",
            )
            # every other increment lies between the slopes and at most one per turning point is in between
            mixed = np.sum((np.abs(d - r) > 1e-9 * span) & (np.abs(d + f_) > 1e-9 * span))
            turns = 2 * (F[1] * tau * L + 1)
            check(mixed <= turns + 1, lambda: f"{info()}: {mixed} increments of segment {j} match neither slope {r} nor {-f_}")
            if F[0] == F[1]:
                A, w = A1, A1 * 2 * F[0] * tau / r
                ok = _fit_triangle(s, A, F[0] * tau, w, r, f_, span)
                check(ok is not False, lambda: f"{info()}: segment {j} is no triangle wave")
                O = ok
                check(in_range(O, O_rng, 1e-5 * span), lambda: f"{info()}: offset {O} of segment {j} outside of {O_rng}")
            used += 1
        elif kind == "step":
            lev = np.unique(np.round(s, 10))
            check(len(lev) <= 3, lambda: f"{info()}: {len(lev)} levels in segment {j}: {lev[:6]}")
            top, bot = s.max(), s.min()
            A, O = (top - bot) / 2, (top + bot) / 2
            if len(lev) == 3:
                check(abs(lev[1] - O) < 1e-9, lambda: f"{info()}: levels {lev} of segment {j}")
            check(in_range(A, A_rng, 1e-6), lambda: f"{info()}: amplitude {A} of segment {j} outside of {A_rng}")
            check(in_range(O, O_rng, 1e-6), lambda: f"{info()}: offset {O} of segment {j} outside of {O_rng}")
            x = np.sign(np.round((s - O) / A, 6))
            if F[0] == F[1]:
                ph = (np.arange(L) * tau * F[0]) % 1.0
                okp = (ph > 1e-9) & (ph < 1 - 1e-9)  # samples on the boundary of a period are ambiguous
                found = False
                for sh in range(L):
                    z = np.roll(x, -sh)
                    low, high = ph[okp & (z < 0)], ph[okp & (z > 0)]
                    if len(low) == 0 or len(high) == 0 or low.max() <= high.min():
                        found = True
                        break
                check(found, lambda: f"{info()}: segment {j} is no (shifted) square wave with frequency {F[0]}: {x.astype(int).tolist()}")
            used += 1
    return used >= 1, [kind, "fixed-f" if case["fix_f"] else "range-f", "lower:" + ("0" if lo == 0 else "neg")]


def _fit_triangle(s, A, ft, w, r, f_, span):
    """Find phase and offset of a triangle with amplitude A, phase step ft (periods/sample) and rise share w; returns the
    offset or False."""
    if not 0 <= w <= 1.0000001:
        return False
    d = np.diff(s)
    k = np.arange(len(s))
    # turning points: top where a rising step is followed by a falling one
    best = False
    cand = []
    up, dn = np.abs(d - r) < 1e-9 * span, np.abs(d + f_) < 1e-9 * span
    for a in np.flatnonzero(up):
        for b in np.flatnonzero(dn):
            if 0 < b - a <= 2:
                # lines through (a+1, s[a+1]) with slope r and through (b, s[b]) with slope -f_
                t = (s[b] + f_ * b - s[a + 1] + r * (a + 1)) / (r + f_)
                cand.append((t, s[a + 1] + r * (t - a - 1)))
    for b in np.flatnonzero(dn):
        for a in np.flatnonzero(up):
            if 0 < a - b <= 2:
                t = (s[b + 1] + f_ * (b + 1) - s[a] + r * a) / (r + f_)
                # a bottom: the top is one rise later
                cand.append((t + w / ft, s[b + 1] - f_ * (t - b - 1) + 2 * A))
    for t, top in cand[:4]:
        off = top - A
        ref = A * sawtooth(2 * np.pi * (ft * (k - t) + w), min(max(w, 0.0), 1.0)) + off
        if np.abs(ref - s).max() < 1e-5 * span + 1e-9:
            return off if off != 0 else 1e-300
    return best if cand else 0.5 * (s.max() + s.min())


def _lm(m):
    return tuple(m) if isinstance(m, list) else m


periodic = st.fixed_dictionaries(
    dict(
        id=g.ids, tau=st.sampled_from([None, 1e-5, 5e-4]), state=st.integers(0, 9), kind=st.sampled_from(["sinus", "triangle", "saw", "step"]),
        margin=st.one_of(st.none(), g.f(0.3, 1), st.tuples(g.f(0.3, 1), g.f(0.3, 1)).map(list)),
        a=st.tuples(g.f(0.1, 1), g.f(0.1, 1)).map(sorted), o=st.tuples(g.f(0, 1), g.f(0, 1)).map(list), give_a=st.booleans(),
        give_o=st.booleans(), f=st.tuples(g.log(0.02, 0.3), g.f(1, 1.3)).map(list), fix_f=st.booleans(),
        len=st.integers(30, 120), segments=st.integers(1, 4), seed=st.integers(0, 10**6),
    )
)  # fmt: skip


# --------------------------------------------------------------------------------------------------------------- walk
def run_walk(case):
    y = drive(case["id"])
    names = ["omega", "torque"] + g.CURRENTS[g.split(case["id"])[2]]
    state = names[case["state"] % len(names)]
    i = list(y.state_names).index(state)
    lo, hi = margins(y, state, case["margin"])
    s_lo, s_hi = case["sigma"]
    kw = dict(episode_lengths=case["len"], limit_margin=case["margin"], sigma_range=[s_lo, s_hi])
    if case["kind"] == "wiener":
        kw["initial_range"] = [lo + (hi - lo) * 0.4, lo + (hi - lo) * 0.6]
    rg = make(case["kind"], state, kw, y, case["seed"])
    used = 0
    L = case["len"]
    laplace = case["kind"] == "laplace"
    for _ in range(case["episodes"]):
        first, out = draw(rg, y, L * case["segments"] - 1)
        v = np.concatenate([[first[i]], out[:, 0]])
        for j in range(case["segments"]):
            s = v[j * L : (j + 1) * L + 1]
            d = np.diff(s)
            free = (s[1:] > lo + 1e-12) & (s[1:] < hi - 1e-12)
            big = (45.0 if laplace else 9.0) * s_hi
            check(
                np.abs(d).max() <= big + 1e-12,
                lambda: f"{case['kind']} walk with step width {kw['sigma_range']} jumps by {np.abs(d).max()}",
            )
            if free.all() and L >= 200:
                # root mean square of the increments: sigma (Wiener), sqrt(2) scale (Laplace)
                rms = math.sqrt(np.mean(d * d)) / (math.sqrt(2) if laplace else 1.0)
                tol = 8 * math.sqrt((5.0 if laplace else 2.0) / L) / 2
                check(
                    s_lo * (1 - tol) <= rms <= s_hi * (1 + tol),
                    lambda: f"{case['kind']} walk with step width {kw['sigma_range']}: the increments of a sub-episode of "
                    f"{L} steps have the width {rms}",
                )
                check(
                    abs(np.mean(d)) <= 8 * s_hi * (1.5 if laplace else 1) / math.sqrt(L),
                    lambda: f"{case['kind']} walk drifts by {np.mean(d)} per step, sigma {s_hi}",
                )
                check(len(np.unique(np.abs(d))) > 0.9 * L, "the increments repeat")
                used += 1
    return used >= 1, [case["kind"], "lower:" + ("0" if lo == 0 else "neg")]


walk = st.fixed_dictionaries(
    dict(
        id=g.ids, state=st.integers(0, 9), kind=st.sampled_from(["wiener", "laplace"]), margin=st.one_of(st.none(), g.f(0.5, 1)),
        sigma=st.tuples(g.log(1e-5, 4e-3), st.sampled_from([1.0, 1.0, 2.0])).map(lambda t: [t[0], t[0] * t[1]]),
        len=st.sampled_from([1, 20, 200, 300]), segments=st.integers(1, 4), episodes=st.integers(1, 2), seed=st.integers(0, 10**6),
    )
)  # fmt: skip


# ------------------------------------------------------------------------------------------------------------ lengths
def run_lengths(case):
    """Two different frequencies cannot be told from one sample, but the break of the recurrence can."""
    y = drive("Cont-CC-PMSM-v0")
    a, b = case["len"]
    f = case["f"] / y.tau
    kind = case["kind"]
    kw = dict(limit_margin=1.0, episode_lengths=[a, b] if case["as"] == "list" else a)
    if kind == "sinus":
        kw.update(frequency_range=[f, f], amplitude_range=[0.5, 0.5], offset_range=[0.1, 0.1])
        if case["as"] == "tuple":
            kw["episode_lengths"] = (a, b)
    rg = make(kind, "i_sq", kw, y, case["seed"])
    hi = b if case["as"] != "int" else a
    lengths = []
    for _ in range(case["episodes"]):
        _, out = draw(rg, y, case["n"])
        s = out[:, 0] - 0.1
        c = 2 * math.cos(2 * math.pi * case["f"])
        res = np.abs(s[2:] + s[:-2] - c * s[1:-1]) > 1e-9  # index k+1 is the centre
        # break between j and j+1 shows at the centres j and j+1
        br = [0]
        k = 0
        while k < len(res) - 1:
            if res[k] and res[k + 1]:
                br.append(k + 2)
                k += 2
            elif res[k]:
                k += 1
            else:
                k += 1
        lengths += list(np.diff(br))
    check(
        all(a <= n <= hi for n in lengths),
        lambda: f"sub-episodes of lengths {sorted(set(map(int, lengths)))}, configured {kw['episode_lengths']}",
    )
    check(bool(lengths) or case["n"] < hi + 4, lambda: f"no new sub-episode within {case['n']} steps, configured {kw['episode_lengths']}")
    if len(lengths) > 60 and hi - a >= 8 and case["as"] != "int":
        m = np.mean(lengths)
        check(
            abs(m - (a + hi) / 2) < 8 * (hi - a) / math.sqrt(12 * len(lengths)) + 1,
            lambda: f"mean sub-episode length {m} of {len(lengths)}, configured {kw['episode_lengths']}",
        )
    return len(lengths) >= 3, [case["as"]]


lengths = st.fixed_dictionaries(
    dict(
        kind=st.just("sinus"), len=st.tuples(st.integers(5, 40), st.integers(0, 30)).map(lambda t: [t[0], sum(t)]),
        f=g.f(0.11, 0.19), n=st.integers(20, 900), episodes=st.integers(1, 3), seed=st.integers(0, 10**6),
        **{"as": st.sampled_from(["list", "tuple", "int"])},
    )
)  # fmt: skip


# ------------------------------------------------------------------------------------------------------------ combine
class _Log:
    """Mixin recording the outermost calls of a sub generator."""

    def _rec(self, name, fn, *a, **k):
        d = self.__dict__.setdefault("_depth", 0)
        self.__dict__["_depth"] = d + 1
        try:
            r = fn(*a, **k)
        finally:
            self.__dict__["_depth"] = d
        if d == 0:
            self.__dict__.setdefault("log", []).append((name, r, a, k))
        return r

    def get_reference(self, *a, **k):
        return self._rec("ref", super().get_reference, *a, **k)

    def get_reference_observation(self, *a, **k):
        return self._rec("obs", super().get_reference_observation, *a, **k)

    def reset(self, *a, **k):
        return self._rec("reset", super().reset, *a, **k)


_LOGGED = {k: type("Logged" + c.__name__, (_Log, c), {}) for k, c in CLS.items()}


def _subs(descs):
    out = []
    for d in descs:
        kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in d["kw"].items()}
        out.append(_LOGGED[d["kind"]](reference_state=d["state"], **kw))
    return out


def _take(subs):
    """{index: [calls]} since the last call"""
    r = {}
    for i, s in enumerate(subs):
        if s.__dict__.get("log"):
            r[i] = s.__dict__["log"]
            s.__dict__["log"] = []
    return r


def run_multiple(case):
    y = drive(case["id"])
    descs = case["subs"]
    form = case["form"]
    if form == "instances":
        subs = _subs(descs)
        rg = rgs.MultipleReferenceGenerator(list(subs))
    else:
        # classes with arguments; instances may be mixed in
        subs = [None] * len(descs)

        def later(i, cls):
            class Made(cls):
                def __init__(self, **kw):
                    super().__init__(**kw)
                    subs[i] = self

            return Made

        given, args = [], []
        for i, d in enumerate(descs):
            kw = dict({k: (tuple(v) if isinstance(v, list) else v) for k, v in d["kw"].items()}, reference_state=d["state"])
            args.append(kw)
            if i in case["mixed"] and form == "list" or form != "list" and i:
                subs[i] = _LOGGED[d["kind"]](**kw)
                given.append(subs[i])
            else:
                given.append(later(i, _LOGGED[d["kind"]]))
        if form == "list":
            rg = rgs.MultipleReferenceGenerator(given, sub_args=args)
        elif form == "dict":
            rg = rgs.MultipleReferenceGenerator(given, sub_args=args[0])
        else:
            rg = rgs.MultipleReferenceGenerator(given, **args[0])
    rg.set_modules(y)
    rg.seed(np.random.SeedSequence(case["seed"]))
    state = np.zeros(len(y.state_names))
    names = [d["state"] for d in descs]
    for sub, d in zip(subs, descs):
        margin = d["kw"].get("limit_margin")
        if d["kind"] == "const":
            want = (d["kw"]["reference_value"],) * 2
        elif margin is not None:
            i = list(y.state_names).index(d["state"])
            want = (margin * y.state_space.low[i], margin * y.state_space.high[i])
        else:
            continue
        got = (sub.reference_space.low[0], sub.reference_space.high[0])
        check(np.allclose(got, want, rtol=0, atol=1e-12), lambda: f"sub generator {d} ({form}): reference space {got} instead of {want}")
    check(list(rg.reference_names) == names, lambda: f"names {rg.reference_names} instead of {names}")
    check(
        np.array_equal(rg.reference_space.low, np.concatenate([s.reference_space.low for s in subs]))
        and np.array_equal(rg.reference_space.high, np.concatenate([s.reference_space.high for s in subs])),
        "the reference space is not the product of the sub spaces",
    )
    for n in case["episodes"]:
        _take(subs)
        ref, obs, _ = rg.reset(state)
        for step in range(n + 1):
            calls = _take(subs)
            if step == 0:
                parts_o = [calls[i][-1][1][1] for i in range(len(subs))]
                parts_r = [calls[i][-1][1][0] for i in range(len(subs))]
            else:
                parts_r = [[c for c in calls[i] if c[0] == "ref"][-1][1] for i in range(len(subs))]
                parts_o = [[c for c in calls[i] if c[0] == "obs"][-1][1] for i in range(len(subs))]
            check(np.array_equal(obs, np.concatenate(parts_o)), lambda: f"observation {obs} instead of {parts_o}")
            check(np.array_equal(ref, np.sum(parts_r, axis=0)), lambda: f"reference {ref} instead of the sum of {parts_r}")
            if step < n:
                ref = np.array(rg.get_reference(state))
                obs = np.array(rg.get_reference_observation(state))
    return len(subs) > 1 and sum(case["episodes"]) >= 5, [f"subs:{len(subs)}"] + sorted({d["kind"] for d in descs})


def run_switched(case):
    y = drive(case["id"])
    descs = case["subs"]
    state_name = ["omega", "torque"][case["state"]]
    subs = _subs([dict(d, state=state_name) for d in descs])
    p = case["p"][: len(subs)]
    if sum(p) == 0:
        p = None
    else:
        p = (np.array(p) / sum(p)).tolist()
    if p and len(p) < len(subs):
        p = None
    a, b = case["sup"]
    kw = dict(super_episode_length=a if case["int"] else (a, b))
    if p:
        kw["p"] = p
    rg = rgs.SwitchedReferenceGenerator(list(subs), **kw)
    if case["int"]:
        b = a + 1
    rg.set_modules(y)
    rg.seed(np.random.SeedSequence(case["seed"]))
    check(
        np.array_equal(rg.reference_space.low, np.min([s.reference_space.low for s in subs], axis=0))
        and np.array_equal(rg.reference_space.high, np.max([s.reference_space.high for s in subs], axis=0)),
        lambda: f"reference space {rg.reference_space} does not cover the sub spaces exactly",
    )
    state = np.zeros(len(y.state_names))
    runs, counts = [], np.zeros(len(subs))
    for n in case["episodes"]:
        _take(subs)
        ref, obs, _ = rg.reset(state)
        calls = _take(subs)
        check(len(calls) == 1, lambda: f"{len(calls)} sub generators were active in the reset")
        active = next(iter(calls))
        counts[active] += 1
        name, r, _, _ = calls[active][-1]
        check(name == "reset" and np.array_equal(r[0], ref) and np.array_equal(r[1], obs), lambda: f"reset returned {obs}, its sub generator {r}")
        length, first = 0, True
        for _ in range(n):
            ref = np.array(rg.get_reference(state))
            calls = _take(subs)
            check(
                list(calls) == [active] and np.array_equal(calls[active][-1][1], ref),
                lambda: f"reference {ref}, calls of the sub generators {calls}, active {active}",
            )
            obs = np.array(rg.get_reference_observation(state))
            calls = _take(subs)
            check(len(calls) == 1, lambda: f"{len(calls)} sub generators were active in one step")
            now = next(iter(calls))
            name, r, args, kws = calls[now][-1]
            length += 1
            if any(c[0] == "reset" for c in calls[now]):
                runs.append((length - (1 if not first else 0), first))
                length, first = 1, False
                active = now
                counts[active] += 1
                init = args[1] if len(args) > 1 else kws.get("initial_reference")
                if name == "reset":
                    check(np.array_equal(r[1], obs), lambda: f"switched observation {obs}, the new sub generator returned {r[1]}")
                    check(
                        init is not None and np.array_equal(init, ref),
                        lambda: f"the new sub generator starts from {init} instead of the last reference {ref}",
                    )
            else:
                check(now == active, lambda: f"sub generator {now} is used without being (re)started, active is {active}")
                check(np.array_equal(r, obs), lambda: f"observation {obs}, its sub generator returned {r}")
    for length, first in runs:
        lo, up = (a + 1, b) if first else (a, b)
        check(lo <= length + (1 if first else 1) - (0 if first else 0) and length <= up, lambda: f"super-episode of {length} steps, configured {kw}")
    tot = counts.sum()
    prob = np.array(p or [1 / len(subs)] * len(subs))
    check(not counts[prob == 0].any(), lambda: f"sub generators with probability 0 are used: {counts} {prob}")
    if tot >= 40:
        dev = np.abs(counts - tot * prob) / np.sqrt(tot * prob * (1 - prob) + 1)
        check(dev.max() < 7, lambda: f"sub generators are chosen {counts} times, probabilities {prob}")
    return len(runs) >= 2, [f"subs:{len(subs)}", "p" if p else "uniform"]


def sub_desc(states):
    def one(kind):
        kw = (
            st.fixed_dictionaries(dict(reference_value=g.f(0, 1)))
            if kind == "const"
            else g.maybe(dict(episode_lengths=lens), dict(limit_margin=g.f(0.2, 1)))
        )
        return st.fixed_dictionaries(dict(kind=st.just(kind), state=states, kw=kw))

    return st.sampled_from(sorted(CLS)).flatmap(one)


multiple = g.ids.flatmap(
    lambda i: st.fixed_dictionaries(
        dict(
            id=st.just(i),
            subs=st.lists(sub_desc(st.sampled_from(g.SYSTEM_STATES[g.split(i)[2]][:-1])), min_size=1, max_size=4, unique_by=lambda d: d["state"]),
            seed=st.integers(0, 10**6),
            episodes=st.lists(st.integers(0, 40), min_size=1, max_size=3),
            form=st.sampled_from(["instances", "instances", "list", "dict", "kwargs"]),
            mixed=st.lists(st.integers(0, 3), max_size=2),
        )
    )
)
switched = st.fixed_dictionaries(
    dict(
        id=g.ids, state=st.integers(0, 1), subs=st.lists(sub_desc(st.just("omega")), min_size=1, max_size=4),
        p=st.lists(st.integers(0, 4), min_size=4, max_size=4), sup=st.tuples(st.integers(2, 12), st.integers(1, 12)).map(lambda t: [t[0], sum(t)]),
        int=st.booleans(), seed=st.integers(0, 10**6), episodes=st.lists(st.integers(1, 300), min_size=1, max_size=3),
    )
)  # fmt: skip


# ---------------------------------------------------------------------------------------------------------------- env
def run_env(case):
    spec = dict(case["spec"])
    env = g.build(spec)
    names = list(env.reference_generator.reference_names)
    y = env.physical_system
    w = {n: 1.0 + 0.5 * k for k, n in enumerate(names)}
    if names:
        spec["reward"] = dict(reward_weights=w, normed_reward_weights=False, reward_power=1, bias=0.0, violation_reward=-1e6)
        env = g.build(spec)
        y = env.physical_system
    pos = {n: list(y.state_names).index(n) for n in names}
    length = y.state_space.high - y.state_space.low
    (s, ann), _ = env.reset(seed=case["seed"])
    n = 0
    for a in g.expand(env.action_space, case["plan"]):
        ann = np.array(ann, float)
        check(
            env.reference_generator.reference_space.shape == ann.shape
            and (ann >= env.reference_generator.reference_space.low - 1e-12).all()
            and (ann <= env.reference_generator.reference_space.high + 1e-12).all(),
            lambda: f"{spec['id']}: announced reference {ann} outside of the reference space",
        )
        (s, nxt), rew, term, _, _ = env.step(a)
        if not np.isfinite(s).all():
            break
        if not term and names:
            want = -sum(w[m] * abs(s[pos[m]] - ann[k]) / length[pos[m]] for k, m in enumerate(names))
            check(
                abs(rew - want) <= 1e-9 * (1 + abs(want)),
                lambda: f"{spec['id']}: reward {rew}; judged against the announced reference {ann} of {names} it is {want} (step {n + 1})",
            )
        n += 1
        ann = nxt
        if term:
            (s, ann), _ = env.reset()
    return n >= 10 and bool(names), [g.split(spec["id"])[2], spec["ref"]["kind"] if spec.get("ref") else "default"]


env_cases = st.fixed_dictionaries(
    dict(
        spec=g.specs(features=("ref", "ref", "load", "tau"), p_feature=0.7).map(lambda s: {**s, "constraints": s.get("constraints", [])}),
        seed=st.integers(0, 10**5),
        plan=g.segments(12, 12),
    )
)

SUBS = [
    Sub("space", space, run_space, 2400, shards=4),
    Sub("periodic", periodic, run_periodic, 3000, shards=6),
    Sub("walk", walk, run_walk, 1000, shards=4),
    Sub("lengths", lengths, run_lengths, 500, shards=2),
    Sub("multiple", multiple, run_multiple, 800, shards=3),
    Sub("switched", switched, run_switched, 800, shards=4),
    Sub("env", env_cases, run_env, 600, shards=6),
]
