"""C17: physical-system wrappers change exactly what they document."""
import math

import numpy as np
from hypothesis import strategies as st

from gym_electric_motor import physical_system_wrappers as psw
from lib import gemlib as g
from lib import models as M
from lib.harness import Sub, Violation, check

PROPERTY = "C17"
RULE = (
    "stack: any of the 54 drives (random supply, load, parameters, solver, initial values) with a stack of up to five "
    "wrappers in any admissible order, stepped over several episodes in lockstep with an independent model of every "
    "wrapper stacked around a plain drive of the same seed; names, limits, nominal values, spaces and every state "
    "are compared; non-trivial if at least 6 steps ran with at least two wrappers. observe: the integrated ODE state with "
    "observation wrappers equals the one without, bit for bit; non-trivial if a state moved. env: added states used in "
    "references, rewards and constraints of a complete environment; non-trivial if 5 steps ran."
)


# ---------------------------------------------------------------------------------------- reference models of wrappers
class Base:
    def __init__(self, y):
        self.y = y
        self.names = list(y.state_names)
        self.limits, self.nominal = np.array(y.limits, float), np.array(y.nominal_state, float)
        self.low, self.high = np.array(y.state_space.low), np.array(y.state_space.high)
        self.space = y.action_space
        self.dead = 0

    def reset(self, peek):
        return np.array(self.y.reset(), float)

    def simulate(self, a, peek):
        return np.array(self.y.simulate(a), float)


class Wrap:
    def __init__(self, inner):
        self.i = inner
        self.names, self.limits, self.nominal = list(inner.names), inner.limits.copy(), inner.nominal.copy()
        self.low, self.high, self.space, self.dead = inner.low.copy(), inner.high.copy(), inner.space, inner.dead

    def add(self, names, limits, nominal, low, high):
        self.names += names
        self.limits, self.nominal = np.append(self.limits, limits), np.append(self.nominal, nominal)
        self.low, self.high = np.append(self.low, low), np.append(self.high, high)

    def reset(self, peek):
        return self.post(self.i.reset(peek), peek, True)

    def simulate(self, a, peek):
        return self.post(self.i.simulate(self.act(a), peek), peek, False)

    def act(self, a):
        return a

    def post(self, s, peek, first):
        return s


class CosSin(Wrap):
    def __init__(self, inner, remove):
        super().__init__(inner)
        self.k = self.names.index("epsilon")
        self.rm = remove
        if remove:
            for n in ("limits", "nominal", "low", "high"):
                setattr(self, n, np.delete(getattr(self, n), self.k))
            del self.names[self.k]
        self.add(["cos(epsilon)", "sin(epsilon)"], [1, 1], [1, 1], [-1, -1], [1, 1])

    def post(self, s, peek, first):
        e = s[self.k] * math.pi
        if self.rm:
            s = np.delete(s, self.k)
        return np.append(s, [math.cos(e), math.sin(e)])


class Sum(Wrap):
    def __init__(self, inner, currents, limit):
        super().__init__(inner)
        self.k = [self.names.index(c) for c in currents]
        agg = (lambda v: float(np.max(v))) if limit == "max" else (lambda v: float(sum(v)))
        self.lim = agg(inner.limits[self.k])
        self.add(["i_sum"], [self.lim], [agg(inner.nominal[self.k])], [-1], [1])

    def post(self, s, peek, first):
        return np.append(s, [sum(s[k] * self.i.limits[k] for k in self.k) / self.lim])


class Dead(Wrap):
    def __init__(self, inner, steps, neutral):
        super().__init__(inner)
        self.steps, self.neutral, self.hist = steps, neutral, []
        self.dead = inner.dead + steps

    def reset(self, peek):
        self.hist = []
        return super().reset(peek)

    def act(self, a):
        self.hist.append(a)
        k = len(self.hist) - 1 - self.steps
        return self.hist[k] if k >= 0 else self.neutral


class Noise(Wrap):
    def __init__(self, inner, states, dist, kw, log):
        super().__init__(inner)
        self.k = list(range(len(self.names))) if states == "all" else [self.names.index(s) for s in states]
        self.dist, self.kw, self.log = dist, kw, log

    def post(self, s, peek, first):
        s = s.copy()
        draw = []
        for k in self.k:
            if self.dist == "normal":  # of scale 0
                s[k] += self.kw["loc"]
            else:
                d = peek[self.names[k]] - s[k]
                tol = 1e-9 + 1e-9 * abs(s[k])
                check(
                    self.kw["low"] - tol <= d <= self.kw["high"] + tol,
                    lambda: f"noise {d} on {self.names[k]} outside of uniform({self.kw})",
                )
                s[k] = peek[self.names[k]]
                draw.append(d)
        if draw:
            self.log.append(draw)
        return s


class Flux(Wrap):
    def __init__(self, inner, mp, tau):
        super().__init__(inner)
        self.mp, self.tau = mp, tau
        self.k = [self.names.index(n) for n in ("i_sa", "i_sb", "i_sc", "omega")]
        self.psi_lim = mp["l_m"] * self.limits[self.names.index("i_sd")]
        self.add(["psi_abs", "psi_angle"], [self.psi_lim, math.pi], [self.psi_lim, math.pi], [np.nan] * 2, [np.nan] * 2)
        self.psi = np.zeros(2)
        self.offset = 0.0  # constant noise added to the angle by an outer wrapper

    def post(self, s, peek, first):
        if first:
            self.psi = np.zeros(2)
            return np.append(s, [0.0, 0.0])
        x = s * self.i.limits
        mp, w = self.mp, x[self.k[3]] * self.mp["p"]
        i = M.t23(x[self.k[:3]])
        lr = mp["l_m"] + mp["l_sigr"]
        a, b = self.psi
        r = mp["r_r"] / lr
        self.psi = self.psi + self.tau * np.array([r * mp["l_m"] * i[0] - r * a - w * b, r * mp["l_m"] * i[1] - r * b + w * a])
        absv = math.hypot(*self.psi)
        ang = math.atan2(self.psi[1], self.psi[0]) / math.pi
        got = peek["psi_angle"] - self.offset
        if absv < 1e-9 * self.psi_lim:
            ang = got  # the angle of a vanishing flux is arbitrary
        elif abs(abs(got - ang) - 2) < 1e-6:
            ang = got  # the two representations of +-pi
        return np.append(s, [absv / self.psi_lim, ang])


class Dq(Wrap):
    def __init__(self, inner, motor, mp, tau):
        super().__init__(inner)
        self.motor, self.p, self.tau = motor, mp["p"], tau
        self.n = {"PMSM": 2, "SCIM": 2, "EESM": 3, "DFIM": 4}[motor]
        self.adv = (0.5 + inner.dead) * tau * mp["p"]
        self.k = {n: self.names.index(n) for n in ("omega", "epsilon", "psi_angle") if n in self.names}
        self.x = None

    def post(self, s, peek, first):
        self.x = s * self.i.limits
        return s

    def act(self, a):
        get = lambda n: float(self.x[self.k[n]])  # noqa: E731
        adv = self.adv * get("omega")
        if self.motor in ("PMSM", "EESM"):
            return np.append(M.t32(M.rot(a[:2], get("epsilon") + adv)), a[2:])
        out = M.t32(M.rot(a[:2], get("psi_angle") + adv))
        if self.motor == "DFIM":
            out = np.append(out, M.t32(M.rot(a[2:], get("psi_angle") - get("epsilon"))))
        return out


def real_wrapper(d, motor):
    if d["kind"] == "noise":
        return psw.StateNoiseProcessor(
            states=d["states"] if d["states"] == "all" else (tuple(d["states"]) if d.get("tuple") else list(d["states"])),
            random_dist=d["dist"], random_kwargs=dict(d["kw"]), random_length=d["length"],
        )  # fmt: skip
    if d["kind"] == "dead" and d.get("callable"):
        return None
    return g.wrapper(d, motor)


def stack_of(case, motor):
    """the stack with states resolved: drops what its position does not admit"""
    names = list(g.SYSTEM_STATES[motor])
    out, dead_after_dq = [], False
    kinds = [d["kind"] for d in case["stack"]]
    has_dq = "dq" in kinds
    for pos, d in enumerate(case["stack"]):
        d = dict(d)
        k = d["kind"]
        later = case["stack"][pos + 1 :]
        if k in ("cossin", "flux", "sum") and any(x["kind"] == k for x in out):
            continue
        if k == "cossin":
            if "epsilon" not in names:
                continue
            if any(x["kind"] in ("dq",) for x in later) and d["remove"]:
                d["remove"] = False
            if d["remove"] and any(x["kind"] == "noise" for x in out):
                d["remove"] = False
            names = [n for n in names if not (d["remove"] and n == "epsilon")] + ["cos(epsilon)", "sin(epsilon)"]
        elif k == "sum":
            if motor == "ShuntDc":
                continue
            cur = [n for n in names if n.startswith("i")]
            d["currents"] = list(dict.fromkeys(cur[i % len(cur)] for i in d["pick"]))
            names.append("i_sum")
        elif k == "flux":
            if motor not in g.IND:
                continue
            names += ["psi_abs", "psi_angle"]
        elif k == "noise":
            if any(x["kind"] == "noise" and "uniform" in (x["dist"], d["dist"]) for x in out):
                continue
            if d["pick"] != "all":
                d["states"] = list(dict.fromkeys(names[i % len(names)] for i in d["pick"]))
            else:
                d["states"] = "all"
            if d["dist"] == "uniform" and "psi_angle" in names:  # the angle of a vanishing flux is arbitrary
                d["states"] = [n for n in (names if d["states"] == "all" else d["states"]) if n != "psi_angle"]
                if not d["states"]:
                    continue
        elif k == "dq":
            if not case["id"].startswith("Cont") or motor not in ("PMSM", "SCIM", "EESM", "DFIM"):
                continue
            if any(x["kind"] == "dq" for x in out) or (motor in g.IND and "psi_angle" not in names):
                continue
        elif k == "dead":
            # the angle advance is defined for one dead time inside of the coordinate transformation
            if has_dq and not dead_after_dq and any(x["kind"] == "dead" for x in out) and any(x["kind"] == "dq" for x in later):
                continue
        if k == "dq":
            dead_after_dq = True
        out.append(d)
    return out


def chain(base, stack, motor, mp, tau, log):
    m, flux = base, None
    for d in stack:
        k = d["kind"]
        if k == "cossin":
            m = CosSin(m, d["remove"])
        elif k == "sum":
            m = Sum(m, d["currents"], d["limit"])
        elif k == "flux":
            m = flux = Flux(m, mp, tau)
        elif k == "dq":
            m = Dq(m, motor, mp, tau)
        elif k == "noise":
            m = Noise(m, d["states"], d["dist"], d["kw"], log)
            if flux is not None and d["dist"] == "normal" and m.names.index("psi_angle") in m.k:
                flux.offset += d["kw"]["loc"]
        elif k == "dead":
            below_dq = any(x["kind"] == "dq" for x in stack[: stack.index(d)])
            sp = base.space
            if below_dq:
                neutral = np.zeros({"PMSM": 2, "SCIM": 2, "EESM": 3, "DFIM": 4}[motor])
            else:
                neutral = 0 if hasattr(sp, "n") else np.zeros(sp.shape, dtype=int if hasattr(sp, "nvec") else float)
            m = Dead(m, d["steps"], neutral)
    return m


def make(case, stack, **extra):
    spec = dict(case["spec"], id=case["id"])
    motor = g.split(case["id"])[2]
    if motor == "EESM":
        spec["mp"] = spec.get("mp") or dict(j_rotor=0)
    if any(d["kind"] == "dq" for d in case.get("stack", [])):
        spec.pop("lock", None)  # rounding of the transformed actions could move a switching instant
    sv = g.solver(spec.pop("solver", None) or "euler4")
    w = tuple(real_wrapper(d, motor) for d in stack)
    env = g.build(spec, ode_solver=sv, constraints=(), reference_generator=g.rgs.ZeroReferenceGenerator(), physical_system_wrappers=w, **extra)
    return env, sv


def actions(space, n_dq, plan):
    if n_dq is None:
        yield from g.expand(space, plan)
        return
    for us, hold in plan:
        a = np.array([0.7 * (2 * us[i % len(us)] / 1000 - 1) for i in range(n_dq)])
        for _ in range(hold):
            yield a


def run_stack(case):
    motor = g.split(case["id"])[2]
    stack = stack_of(case, motor)
    env, sv = make(case, stack)
    plain, sp = make(case, [])
    y, b = env.physical_system, plain.physical_system.unwrapped
    mp, tau = b.electrical_motor.motor_parameter, b.tau
    log = []
    full = stack + ([dict(kind="sum", currents=["i_a", "i_e"], limit="max")] if motor == "ShuntDc" else [])
    m = chain(Base(b), full, motor, mp, tau, log)
    text = f"{case['id']} {[d['kind'] for d in full]}"
    dq = next((d for d in stack if d["kind"] == "dq"), None)
    n_dq = None if dq is None else {"PMSM": 2, "SCIM": 2, "EESM": 3, "DFIM": 4}[motor]
    # --- structure
    check(list(y.state_names) == m.names, lambda: f"{text}: state names {y.state_names} instead of {m.names}")
    check(
        dict(y.state_positions) == {n: i for i, n in enumerate(m.names)},
        lambda: f"{text}: state positions {y.state_positions} do not match the names {m.names}",
    )
    for what, got, want in (("limits", y.limits, m.limits), ("nominal values", y.nominal_state, m.nominal)):
        check(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-12, atol=0), lambda: f"{text}: {what} {got} instead of {want} for {m.names}")
    for what, got, want in (("lower", y.state_space.low, m.low), ("upper", y.state_space.high, m.high)):
        check(np.shape(got) == np.shape(want), lambda: f"{text}: {what} state space bound {got} for {m.names}")
        k = ~np.isnan(want)
        check(np.allclose(np.asarray(got)[k], want[k]), lambda: f"{text}: {what} state space bound {got} instead of {want} for {m.names}")
    if n_dq is None:
        check(y.action_space == m.space, lambda: f"{text}: action space {y.action_space}")
    else:
        sa = y.action_space
        check(sa.shape == (n_dq,) and (sa.low == -1).all() and (sa.high == 1).all(), lambda: f"{text}: action space {sa}")
    check(y.tau == tau and y.unwrapped is not y and y.unwrapped.tau == tau or not stack, f"{text}: wrong tau or innermost system")
    check(list(env.state_names if hasattr(env, "state_names") else m.names) == m.names, f"{text}: environment state names")

    # --- lockstep
    def compare(got, k):
        got = np.asarray(got, float)
        peek = dict(zip(m.names, got))

        def cmp(want):
            bad = [
                f"{n}: {a} instead of {w}"
                for n, a, w in zip(m.names, got, want)
                if not (abs(a - w) <= 1e-9 + tol * abs(w) or (n == "epsilon" and abs(abs(a - w) - 2) < 1e-6))
            ]
            check(not bad, lambda: f"{text} {case['stack']}: {k}: " + "; ".join(bad[:6]))

        return peek, cmp

    tol = 1e-6
    env.reset(seed=case["seed"])
    plain.reset(seed=case["seed"])
    steps = 0
    # the seeded reset of both environments: continue with a second reset, where the model observes
    for e, plan in enumerate(case["plans"]):
        s = y.reset()
        peek, cmp = compare(s, f"reset {e}")
        cmp(m.reset(peek))
        for j, a in enumerate(actions(m.space, n_dq, plan)):
            s = y.simulate(a)
            peek, cmp = compare(s, f"episode {e} step {j}")
            if not np.isfinite(np.asarray(s)).all() or np.abs(np.asarray(s)).max() > 1e6:
                return False, ["diverged"]
            cmp(m.simulate(a, peek))
            steps += 1
        check(y.k == b.k, lambda: f"{text}: step counter {y.k} instead of {b.k}")
    if len(log) > 4:
        flat = [x for row in log for x in row]
        d = next(d for d in stack if d["kind"] == "noise" and d["dist"] == "uniform")
        width = d["kw"]["high"] - d["kw"]["low"]
        if width > 0.01:
            flat.sort()
            check(
                min(b2 - a2 for a2, b2 in zip(flat, flat[1:])) > 0 or width < 0.02,
                lambda: f"{text}: the noise repeats itself: {log[:6]}",
            )
    return steps >= 6 and len(full) >= 2, [motor, *(d["kind"] for d in full), f"depth{len(full)}"]


pick = st.lists(st.integers(0, 40), min_size=1, max_size=4)


def wrapper_desc(motor):
    opts = [
        st.fixed_dictionaries(dict(kind=st.just("dead"), steps=st.integers(1, 4))),
        st.fixed_dictionaries(
            dict(
                kind=st.just("noise"), pick=st.one_of(pick, pick, st.just("all")), dist=st.just("normal"), tuple=st.booleans(),
                kw=st.fixed_dictionaries(dict(loc=g.f(-0.3, 0.3), scale=st.just(0.0))), length=st.sampled_from([1, 2, 5, 1000]),
            )
        ),
        st.fixed_dictionaries(
            dict(
                kind=st.just("noise"), pick=st.one_of(pick, pick, st.just("all")), dist=st.just("uniform"), tuple=st.booleans(),
                kw=st.tuples(g.f(-0.3, 0.3), g.f(0.02, 0.5)).map(lambda t: dict(low=t[0], high=t[0] + t[1])),
                length=st.sampled_from([1, 2, 3, 5, 1000]),
            )
        ),
        st.fixed_dictionaries(dict(kind=st.just("sum"), pick=pick, limit=st.sampled_from(["max", "sum"]))),
    ]  # fmt: skip
    if motor not in g.DC:
        opts.append(st.fixed_dictionaries(dict(kind=st.just("cossin"), remove=st.booleans())))
        opts.append(st.just(dict(kind="dq")))
    if motor in g.IND:
        opts.append(st.just(dict(kind="flux")))
        opts.append(st.just(dict(kind="flux")))
        opts.append(st.just(dict(kind="dq")))
    return st.one_of(opts)


def _case(i):
    motor = g.split(i)[2]
    feats = ("tau", "supply", "mp", "minit", "load", "solver", "jac", "lock")
    return st.fixed_dictionaries(
        dict(
            id=st.just(i),
            spec=g.specs([i], feats),
            stack=st.lists(wrapper_desc(motor), min_size=1, max_size=5),
            seed=st.integers(0, 2**31),
            plans=st.lists(g.segments(5, 5), min_size=1, max_size=3),
        )
    )


WIDS = g.IDS + [i for i in g.IDS if i.startswith("Cont") and g.split(i)[2] in ("PMSM", "EESM", "SCIM", "DFIM")]
stack_cases = st.sampled_from(WIDS).flatmap(_case)


# -------------------------------------------------------------------------------------------------------------- observe
def run_observe(case):
    """observation wrappers: same integrated trajectory bit for bit"""
    motor = g.split(case["id"])[2]
    stack = [d for d in stack_of(case, motor) if d["kind"] not in ("dead", "dq")]
    env, sv = make(case, stack)
    plain, sp = make(case, [])
    moved = False
    for k in range(2):
        env.reset(seed=case["seed"] if k == 0 else None)
        plain.reset(seed=case["seed"] if k == 0 else None)
        for plan in case["plans"]:
            for a in g.expand(plain.action_space, plan):
                env.step(a)
                plain.step(a)
                check(
                    sv.t == sp.t and np.array_equal(sv.y, sp.y, equal_nan=True),
                    lambda: f"{case['id']}: {[d['kind'] for d in stack]} change the trajectory: {sv.y} instead of {sp.y}",
                )
                moved = moved or abs(sp.y[1]) > 1e-9
            env.reset()
            plain.reset()
            check(np.array_equal(sv.y, sp.y), lambda: f"{case['id']}: {[d['kind'] for d in stack]} change the initial state")
    return moved and bool(stack), [motor, *(d["kind"] for d in stack)]


# ------------------------------------------------------------------------------------------------------------------ env
def run_env(case):
    """added states are first-class states of the environment"""
    motor = g.split(case["id"])[2]
    stack = stack_of(case, motor)
    names = ["i_sum"] if motor == "ShuntDc" else []
    for d in stack:
        names += {"sum": ["i_sum"], "cossin": ["cos(epsilon)", "sin(epsilon)"]}.get(d["kind"], [])
    if not names:
        return False, ["no added state"]
    name = names[case["which"] % len(names)]
    spec = dict(case["spec"], id=case["id"])
    if motor == "EESM":
        spec["mp"] = spec.get("mp") or dict(j_rotor=0)
    spec.pop("lock", None)
    solver = spec.pop("solver", None) or "euler4"
    kw = dict(
        ode_solver=g.solver(solver),
        reference_generator=g.rgs.ConstReferenceGenerator(reference_state=name, reference_value=case["value"]),
        reward_function=g.rfs.WeightedSumOfErrors(reward_weights={name: 1.0}, gamma=0.5, bias=0.0),
        constraints=(name,) if case["constrain"] else (),
        physical_system_wrappers=tuple(real_wrapper(d, motor) for d in stack),
    )
    if case["filter"]:
        kw["state_filter"] = [name, "omega"]
    env = g.build(spec, **kw)
    y = env.physical_system
    k = list(y.state_names).index(name)
    obs = [name, "omega"] if case["filter"] else list(y.state_names)
    check(env.reference_generator.reference_names == [name], lambda: f"reference names {env.reference_generator.reference_names}")
    check(env.observation_space[0].shape == (len(obs),), lambda: f"observation space {env.observation_space} for {obs}")
    n_dq = y.action_space.shape[0] if any(d["kind"] == "dq" for d in stack) else None
    (s, r), _ = env.reset(seed=case["seed"])
    steps, done = 0, False
    for a in actions(y.action_space, n_dq, case["plans"][0]):
        (s, r), rew, term, _, _ = env.step(a)
        steps += 1
        v = float(s[obs.index(name)])
        if not np.isfinite(s).all():
            return False, ["diverged"]
        check(len(s) == len(obs) and len(r) == 1 and r[0] == case["value"], lambda: f"{case['id']}: observation {s}, {r} for {obs}")
        viol = case["constrain"] and abs(v) > 1
        check(bool(term) == bool(viol), lambda: f"{case['id']}: terminated={term} with {name}={v} and the constraint {case['constrain']}")
        want = -abs(v - case["value"]) / 2 if not viol else -2.0
        check(abs(rew - want) <= 1e-9 * (1 + abs(want)), lambda: f"{case['id']}: reward {rew} instead of {want} for {name}={v}")
        if term:
            done = True
            break
    return steps >= 5 or done, [motor, name, "constraint" if case["constrain"] else "free", "violated" if done else "ok"]


env_cases = st.tuples(stack_cases, st.integers(0, 5), g.f(-1, 1), st.booleans(), st.booleans()).map(
    lambda t: dict(t[0], which=t[1], value=t[2], constrain=t[3], filter=t[4])
)


# ---------------------------------------------------------------------------------------------------------------- space
def run_space(case):
    """normalised states lie in their normalised space: bounds of added states are at most one"""
    motor = g.split(case["id"])[2]
    stack = [dict(kind="flux")] if case["flux"] else [dict(kind="cossin", remove=case["remove"])]
    env, _ = make(dict(case, spec={}), stack)
    y = env.physical_system
    for n, lo, hi in zip(y.state_names, y.state_space.low, y.state_space.high):
        if not (abs(lo) <= 1 and abs(hi) <= 1):
            raise Violation(
                f"{case['id']}: the space of the normalised state {n} is [{lo}, {hi}]",
                "flux-observer-unnormalised-space" if n.startswith("psi_") else None,
            )
    return True, [motor, stack[0]["kind"]]


space_cases = st.sampled_from([i for i in g.IDS if g.split(i)[2] not in g.DC]).flatmap(
    lambda i: st.fixed_dictionaries(
        dict(id=st.just(i), flux=st.booleans() if g.split(i)[2] in g.IND else st.just(False), remove=st.booleans())
    )
)

SUBS = [
    Sub("stack", stack_cases, run_stack, 1200, 25000, shards=6),
    Sub("observe", stack_cases, run_observe, 300, 6000, shards=2),
    Sub("env", env_cases, run_env, 400, 8000, shards=2),
    Sub("space", space_cases, run_space, 40, 100),
]
