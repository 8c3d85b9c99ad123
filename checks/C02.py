"""C02: seeded runs are reproducible, whatever happened before."""
import random

import numpy as np
from hypothesis import strategies as st

import gym_electric_motor as gem
from gym_electric_motor import physical_system_wrappers as psw
from gym_electric_motor import physical_systems as ps
from gym_electric_motor import reference_generators as rg
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C02"
RULE = (
    "A case is an environment specification with random components (references, random initial states, random supply "
    "phase, random load, state noise), a seed, an action plan and one or two pre-histories (other seeds, earlier "
    "episodes of any length, other environments, use of the global random generators). Non-trivial: at least one "
    "random component is active, i.e. another seed gives another trajectory, and at least 3 steps were compared."
)
FEATURES = ("tau", "load", "supply", "minit", "ref", "wrappers", "solver", "mp", "constraints", "ac")


def _noise():
    """Operations that must not influence a seeded run."""
    ep = st.tuples(st.just("episode"), st.one_of(st.none(), st.integers(0, 9)), g.segments(3, 6)).map(list)
    return st.lists(
        st.one_of(
            ep, ep,
            st.tuples(st.just("other"), st.integers(0, 53), st.integers(0, 5)).map(list),
            st.tuples(st.just("global"), st.integers(0, 5)).map(list),
            st.just(["same_other"]),
            st.tuples(st.just("step"), g.UVEC, st.integers(1, 5)).map(list),
        ),
        max_size=5,
    )  # fmt: skip


def play_noise(env, spec, ops):
    running = False
    for op in ops:
        if op[0] == "episode":
            g.rollout(env, op[2], seed=op[1])
            running = False
        elif op[0] == "other":
            g.rollout(g.build(dict(id=g.IDS[op[1]])), [[[500], 3]], seed=op[2])
        elif op[0] == "same_other":
            g.rollout(g.build(spec), [[[100], 5]], seed=None)
        elif op[0] == "global":
            np.random.seed(op[1])
            random.seed(op[1])
            np.random.rand(op[1] + 1)
            random.random()
        elif op[0] == "step":
            if not running:
                env.reset()
                running = True
            for _ in range(op[2]):
                if env.step(g.action(env.action_space, op[1]))[2]:
                    running = False
                    break


def run_replay(case):
    """reset(seed) + actions after any pre-history == the same in a fresh instance"""
    spec, plan, seed = case["spec"], case["plan"], case["seed"]
    env = g.build(spec)
    play_noise(env, spec, case["pre"])
    a = g.rollout(env, plan, seed=seed)
    if case["mid"]:
        play_noise(env, spec, case["mid"])
        b = g.rollout(env, plan, seed=seed)
        check(g.same(a, b), lambda: "second seeded run in the same instance differs: " + g.first_diff(a, b))
    c = g.rollout(g.build(spec), plan, seed=seed)
    check(g.same(a, c), lambda: "seeded run in a used and in a new instance differ: " + g.first_diff(a, c))
    d = g.rollout(env, plan, seed=seed + 1)
    rnd = not g.same(a, d)
    return rnd and len(a) > 3, [g.split(spec["id"])[2], "random" if rnd else "deterministic"]


def run_stream(case):
    """After one seeding, the n-th episode does not depend on the lengths of the episodes before it."""
    spec, seed = case["spec"], case["seed"]
    envs = [g.build(spec), g.build(spec)]
    for e in envs:
        e.reset(seed=seed)
    rnd, prev, n = False, None, 0
    for plan, la, lb in case["episodes"]:
        res = []
        for e, extra in zip(envs, (la, lb)):
            (s, r), _ = e.reset()
            out = [("reset", s.copy(), np.copy(r))]
            for a in g.expand(e.action_space, plan):
                (s, r), rew, term, _, _ = e.step(a)
                out.append(("step", s.copy(), np.copy(r), float(rew), bool(term)))
                if term:
                    break
            else:
                for _ in range(extra):
                    if e.step(g.action(e.action_space, [500]))[2]:
                        break
            res.append(out)
        check(
            g.same(*res),
            lambda: f"episode {n} after the seeding depends on the lengths of the earlier ones: " + g.first_diff(*res),
        )
        n += 1
        if prev is not None and not np.array_equal(prev, res[0][0][1]):
            rnd = True
        prev = res[0][0][1]
        if any(not np.array_equal(x[2], res[0][0][2]) for x in res[0]):
            rnd = True
    return rnd and n >= 2, [g.split(spec["id"])[2], "random" if rnd else "deterministic"]


MULTI = {"Cont-TC-PMSM-v0": ["i_sd", "i_sq", "torque", "omega"], "Cont-SC-ExtExDc-v0": ["i_a", "i_e", "omega", "torque"],
         "Finite-CC-SynRM-v0": ["i_sd", "i_sq", "u_sd", "u_sq"], "Finite-TC-SCIM-v0": ["i_sd", "i_sq", "torque", "omega"]}  # fmt: skip


def _sub_gen(kind, state, n):
    kw = dict(reference_state=state, episode_lengths=(n, n), limit_margin=0.9)
    if kind == "wiener":
        return rg.WienerProcessReferenceGenerator(sigma_range=(1e-3, 1e-3), **kw)
    if kind == "laplace":
        return rg.LaplaceProcessReferenceGenerator(sigma_range=(1e-3, 1e-3), **kw)
    kw["limit_margin"] = (-1.0, 1.0)
    cls = dict(sin=rg.SinusoidalReferenceGenerator, tri=rg.TriangularReferenceGenerator, saw=rg.SawtoothReferenceGenerator, step=rg.StepReferenceGenerator)[kind]
    return cls(amplitude_range=(0.1, 0.3), frequency_range=(500, 2000), offset_range=(0.4, 0.6), **kw)


def _piece(kind, x):
    """what was drawn: independent of the range and of the first value"""
    return tuple(np.round(np.diff(x) if kind in ("wiener", "laplace") else np.asarray(x), 10))


def _fresh(seen, sig, where):
    if len(sig) and np.any(np.abs(sig) > 0):
        other = seen.setdefault(sig, where)
        check(other == where, lambda: f"{where} repeats the random values of {other}: {sig[:6]}")


def run_distinct(case):
    """Different random components, episodes and seeds draw different numbers."""
    env_id = case["id"]
    names = MULTI[env_id][: case["n"]]
    n, kind = case["len"], case["kind"]
    motor = g.split(env_id)[2]
    minit = {m: 0.0 for m in INIT[motor]}
    kw = dict(
        motor=g.MOTOR_CLS[motor](motor_initializer=dict(states=minit, random_init="uniform")),
        load=ps.PolynomialStaticLoad(load_parameter=dict(j_load=1.0), load_initializer=dict(states=dict(omega=0.0), random_init="uniform", interval=[[10.0, 60.0]])),
    )  # fmt: skip
    subs = [_sub_gen(kind, m, n) for m in names]
    if case["nest"]:
        subs = [rg.SwitchedReferenceGenerator([s_, _sub_gen(kind, m, n)], super_episode_length=(n, n + 1)) for s_, m in zip(subs, names)]
    kw["reference_generator"] = rg.MultipleReferenceGenerator(subs)
    env = g.build(dict(id=env_id, constraints=[]), **kw)
    y = env.physical_system
    lim, nom, lo = np.asarray(y.limits), np.asarray(y.nominal_state), np.asarray(y.state_space.low)
    pos = y.state_positions
    seen, init, count = {}, {}, 0
    for sd in case["seeds"]:
        for ep in range(2):
            (s, r), _ = env.reset(seed=sd if ep == 0 else None)
            s = np.asarray(s) * lim
            # the position inside the interval, for every uniformly drawn initial value
            fr = dict(omega=(s[pos["omega"]] - 10.0) / 50.0)
            for m in minit:
                if m in pos and motor not in g.IND:
                    i = pos[m]
                    fr[m] = (s[i] / nom[i] - lo[i]) / (1 - lo[i])
            for m, v in fr.items():
                where = f"initial {m} (seed {sd}, episode {ep})"
                other = init.setdefault(round(float(v), 9), where)
                check(other == where, lambda: f"{where} repeats the random value of {other}: {v}")
                count += 1
            refs = [np.array(r, float)]
            for a in g.expand(env.action_space, [[[500], case["pieces"] * n]]):
                (s, r), *_ = env.step(a)
                refs.append(np.array(r, float))
            refs = np.array(refs)[: case["pieces"] * n]
            for j, m in enumerate(names):
                for k in range(case["pieces"]):
                    x = refs[k * n : (k + 1) * n, j]
                    if kind == "laplace" and np.max(np.abs(x)) > 0.85:
                        continue
                    _fresh(seen, _piece(kind, x), f"reference of {m} (seed {sd}, episode {ep}, sub episode {k})")
                    count += 1
    return count >= 4 and case["n"] > 1, [kind, "nested" if case["nest"] else "flat", motor]


INIT = dict(PMSM=["i_sd", "i_sq", "epsilon"], ExtExDc=["i_a", "i_e"], SynRM=["i_sd", "i_sq", "epsilon"], SCIM=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"])


class _Log:
    """Records numbers that a component of the user draws from its random generator."""

    log = None

    def draw(self, where):
        if self.log is not None:
            self.log.append((self.who, where, tuple(float(v) for v in self.random_generator.random(2))))


class UserSupply(_Log, ps.IdealVoltageSupply, gem.RandomComponent):
    def __init__(self, *a, **kw):
        ps.IdealVoltageSupply.__init__(self, *a, **kw)
        gem.RandomComponent.__init__(self)

    def reset(self):
        self.next_generator()
        self.draw("reset")
        return super().reset()

    def get_voltage(self, *a, **kw):
        self.draw("use")
        return super().get_voltage(*a, **kw)


class UserLoad(_Log, ps.PolynomialStaticLoad):
    def reset(self, *a, **kw):
        out = super().reset(*a, **kw)
        self.draw("reset")
        return out


def user_motor(cls):
    class UserMotor(_Log, cls):
        def reset(self, *a, **kw):
            out = super().reset(*a, **kw)
            self.draw("reset")
            return out

        def i_in(self, *a, **kw):
            self.draw("use")
            return super().i_in(*a, **kw)

    return UserMotor


class UserConverter(_Log, ps.converters.ContFourQuadrantConverter, gem.RandomComponent):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        gem.RandomComponent.__init__(self)

    def reset(self):
        self.next_generator()
        self.draw("reset")
        return super().reset()

    def set_action(self, *a, **kw):
        self.draw("use")
        return super().set_action(*a, **kw)


class UserReference(_Log, rg.WienerProcessReferenceGenerator):
    def reset(self, *a, **kw):
        out = super().reset(*a, **kw)
        self.draw("reset")
        return out

    def get_reference(self, *a, **kw):
        self.draw("use")
        return super().get_reference(*a, **kw)


class UserNoise(_Log, psw.StateNoiseProcessor):
    def reset(self, *a, **kw):
        out = super().reset(*a, **kw)
        self.draw("reset")
        return out

    def simulate(self, *a, **kw):
        self.draw("use")
        return super().simulate(*a, **kw)


class UserReward(_Log, gem.reward_functions.WeightedSumOfErrors, gem.RandomComponent):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        gem.RandomComponent.__init__(self)

    def reset(self, *a, **kw):
        self.next_generator()
        self.draw("reset")
        return super().reset(*a, **kw)

    def reward(self, *a, **kw):
        self.draw("use")
        return super().reward(*a, **kw)


class UserCallback(_Log, gem.core.Callback, gem.RandomComponent):
    def __init__(self):
        gem.core.Callback.__init__(self)
        gem.RandomComponent.__init__(self)

    def on_reset_begin(self):
        self.next_generator()
        self.draw("reset")

    def on_step_end(self, *a):
        self.draw("use")


USER = dict(PermExDc=["i"], PMSM=["i_sd", "i_sq"])
STATES = dict(PermExDc=["i", "omega"], PMSM=["i_sd", "i_sq"])


def _user_env(case):
    """-> environment, names of the logging components, list they log to"""
    motor, log, comps = case["motor"], [], {}

    def reg(name, c):
        if name in case["who"]:
            c.log, c.who = log, name
            comps[name] = c
        return c

    load = reg("load", UserLoad(load_parameter=dict(j_load=1.0), load_initializer=dict(states=dict(omega=0.0), random_init="uniform", interval=[[10.0, 60.0]])))
    mot = reg("motor", user_motor(g.MOTOR_CLS[motor])(motor_initializer=dict(states={m: 0.0 for m in USER[motor]}, random_init=case["init"])))
    kw = dict(motor=mot, load=load, supply=reg("supply", UserSupply(u_nominal=60.0 if motor == "PermExDc" else 420.0)))
    if motor == "PermExDc":
        kw["converter"] = reg("converter", UserConverter())
    refs = [reg(f"ref{i}", UserReference(reference_state=m, sigma_range=(1e-3, 1e-2), episode_lengths=(5, 9))) for i, m in enumerate(STATES[motor])]
    if case["multi"] == "multi":
        kw["reference_generator"] = rg.MultipleReferenceGenerator(refs)
    elif case["multi"] == "switched":
        kw["reference_generator"] = rg.SwitchedReferenceGenerator(refs[:1] + [reg("ref1", UserReference(reference_state=STATES[motor][0], sigma_range=(1e-3, 1e-2), episode_lengths=(5, 9)))], super_episode_length=(4, 8))
    else:
        kw["reference_generator"] = refs[0]
    kw["reward_function"] = reg("reward", UserReward(reward_weights={STATES[motor][0]: 1.0}))
    kw["physical_system_wrappers"] = tuple(reg(f"noise{i}", UserNoise(states=["omega"], random_dist=d, random_kwargs=k)) for i, (d, k) in enumerate(NOISE[: case["noises"]]))
    kw["callbacks"] = (reg("callback", UserCallback()),)
    env = g.build(dict(id=f"Cont-CC-{motor}-v0", constraints=[]), **kw)
    return env, log


NOISE = [("normal", dict(scale=1e-3)), ("uniform", dict(low=-1e-3, high=1e-3))]
WHO = ["load", "motor", "supply", "converter", "ref0", "ref1", "reward", "noise0", "noise1", "callback"]


def _user_run(case):
    env, log = _user_env(case)
    out = {}
    for sd in case["seeds"]:
        for ep in range(case["episodes"]):
            log.clear()
            env.reset(seed=sd if ep == 0 else None)
            for a in g.expand(env.action_space, case["plan"]):
                env.step(a)
            out[sd, ep] = list(log)
    return out


def run_components(case):
    """Random components written by the user: reproducible and mutually independent."""
    out = _user_run(case)
    again = _user_run(case)
    seen, whos = {}, set()
    for key, log in out.items():
        check(log == again[key], lambda: f"seed {key[0]}, episode {key[1]}: the random components draw {_first(log, again[key])}")
        for who, where, v in log:
            whos.add(who)
            place = f"{who} (seed {key[0]}, episode {key[1]}, {where})"
            other = seen.setdefault(v, place)
            check(other is place, lambda: f"{place} draws the same random numbers as {other}: {v}")
    return len(whos) > 2 and len(out) > 1, [case["motor"], case["multi"]] + sorted(whos)


def _first(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{x} at first and {y} with the same seed"
    return f"{len(a)} and {len(b)} times"


_spec = g.specs(features=FEATURES, p_feature=0.55)
_plan = g.segments(5, 8)
SUBS = [
    Sub(
        "replay",
        st.fixed_dictionaries(dict(spec=_spec, plan=_plan, seed=st.integers(0, 2**31), pre=_noise(), mid=_noise())),
        run_replay, 2000, 60000, shards=8,
    ),
    Sub(
        "stream",
        st.fixed_dictionaries(
            dict(
                spec=_spec,
                seed=st.integers(0, 2**31),
                episodes=st.lists(
                    st.tuples(g.segments(3, 6), st.integers(0, 30), st.integers(0, 30)).map(list), min_size=2, max_size=4
                ),
            )
        ),
        run_stream, 2000, 60000, shards=8,
    ),
    Sub(
        "distinct",
        st.fixed_dictionaries(
            dict(
                id=st.sampled_from(sorted(MULTI)), n=st.integers(2, 4), len=st.integers(8, 25), pieces=st.integers(1, 3), nest=st.booleans(),
                kind=st.sampled_from(["wiener", "laplace", "sin", "tri", "saw", "step"]), seeds=st.lists(st.integers(0, 2**31), min_size=1, max_size=2, unique=True),
            )
        ),
        run_distinct, 400, 8000, shards=4,
    ),
    Sub(
        "components",
        st.fixed_dictionaries(
            dict(
                motor=st.sampled_from(sorted(USER)), who=st.lists(st.sampled_from(WHO), min_size=2, max_size=10, unique=True), init=st.sampled_from(["uniform", "gaussian", None]),
                multi=st.sampled_from(["multi", "multi", "switched", "single"]), noises=st.integers(0, 2), seeds=st.lists(st.integers(0, 2**31), min_size=1, max_size=2, unique=True),
                episodes=st.integers(1, 3), plan=g.segments(3, 8),
            )
        ),
        run_components, 400, 8000, shards=4,
    ),
]  # fmt: skip
