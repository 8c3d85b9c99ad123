"""C24: motor descriptions, state observers and the simulation clock report the environment they belong to."""
import numpy as np
from hypothesis import strategies as st

import gym_electric_motor as gem
from gym_electric_motor.envs.motors import ActionType, ControlType, Motor, MotorType
from gym_electric_motor.observers import StateObserver
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C24"
RULE = (
    "motor: every combination of machine, task and action type; non-trivial if the environment was built and stepped. "
    "observe: one or two environments of any configuration with up to two observers each over interleaved histories of "
    "steps and resets; every observed value and the clock against the last returned observation; non-trivial if at least "
    "5 observations with a state filter or a reference were compared. unknown: names that are not observed."
)
TYPES = dict(
    PermExDc="PermanentlyExcitedDcMotor", ExtExDc="ExternallyExcitedDcMotor", SeriesDc="SeriesDc", ShuntDc="ShuntDc",
    EESM="ExternallyExcitedSynchronousMotor", DFIM="DoublyFedInductionMotor", SCIM="SquirrelCageInductionMotor",
    PMSM="PermanentMagnetSynchronousMotor", SynRM="SynchronousReluctanceMotor",
)  # fmt: skip
TASKS = dict(SC="SpeedControl", TC="TorqueControl", CC="CurrentControl")
ACTS = dict(Cont="Continuous", Finite="Finite")


def describe(env_id):
    act, task, motor = g.split(env_id)
    return Motor(MotorType[TYPES[motor]], ControlType[TASKS[task]], ActionType[ACTS[act]])


def run_motor(case):
    env_id = case["id"]
    act, task, motor = g.split(env_id)
    m = describe(env_id)
    check(m.env_id() == env_id, lambda: f"{m} gives the identifier {m.env_id()} instead of {env_id}", "id")
    env = gem.make(m.env_id(), visualization=g.NoVisu()).unwrapped
    drive = env.physical_system.unwrapped
    check(isinstance(drive.electrical_motor, g.MOTOR_CLS[motor]), f"{env_id}: {drive.electrical_motor}", "machine")
    check(type(env.action_space).__name__.endswith("Box") == (act == "Cont"), f"{env_id}: {env.action_space}", "action")
    refs = dict(SC=["omega"], TC=["torque"], CC=["i_a"] if motor == "ShuntDc" else g.CURRENTS[motor])[task]
    check(sorted(env.reference_names) == sorted(refs), lambda: f"{env_id}: references {env.reference_names}", "task")
    states = m.states()
    check(len(set(states)) == len(states), f"{motor}: duplicate states in {states}", "duplicates")
    unknown = [s for s in states if s not in env.physical_system.state_names]
    check(not unknown, lambda: f"{motor}: the described states {unknown} are no states of the drive", "states")
    need = {"omega", "torque", *g.CURRENTS[motor]}
    check(need <= set(states), lambda: f"{motor}: {sorted(need - set(states))} are missing in the description", "missing")
    env.reset(seed=1)
    for a in g.expand(env.action_space, case["plan"]):
        if env.step(a)[2]:
            break
    return True, [env_id]


def run_observe(case):
    envs = [g.build(s) for s in case["specs"]]
    expected = [list(s.get("filter") or e.physical_system.state_names) for s, e in zip(case["specs"], envs)]
    if case["wrapped"]:
        envs.append(gem.make(case["specs"][0]["id"], visualization=g.NoVisu()))
        expected.append(list(envs[-1].unwrapped.physical_system.state_names))
    names = [list(e.unwrapped.state_names) for e in envs]
    check(names == expected, lambda: f"state names {names} instead of {expected}", "order")
    for e, n in zip(envs, names):
        check(n == list(e.unwrapped.state_names), "state names change", "names")
    observers = [[StateObserver(e) for _ in range(1 + case["twice"])] for e in envs]
    last, compared, special = [None] * len(envs), 0, False
    k = [0] * len(envs)
    for who, op, us in case["ops"]:
        i = who % len(envs)
        e = envs[i]
        if op == "reset" or last[i] is None:
            last[i], k[i] = e.reset(seed=us[0])[0], 0
        else:
            obs, _, term, _, _ = e.step(g.action(e.action_space, us))
            last[i], k[i] = obs, k[i] + 1
            if term and op == "step_reset":
                last[i], k[i] = e.reset()[0], 0
            elif term:
                _compare(e, observers[i], names[i], last[i], k[i])
                last[i] = None
                continue
        for j, env in enumerate(envs):  # observing one environment is independent of the others
            if last[j] is not None:
                compared += _compare(env, observers[j], names[j], last[j], k[j])
                special |= bool(len(last[j][1]) or case["specs"][0].get("filter"))
    for e, n in zip(envs, names):
        check(n == list(e.unwrapped.state_names), "the state names of the environment have been changed", "names-changed")
    return special and compared >= 5, [g.split(s["id"])[2] for s in case["specs"]]


def _compare(env, observers, names, obs, k):
    e = env.unwrapped
    refs = [r + "_ref" for r in e.reference_names]
    check(len(refs) == len(obs[1]), "harness: a reference generator with more values than names")
    expected = dict(zip(list(names) + refs, [*map(float, obs[0]), *map(float, obs[1])]))
    for o in observers:
        for n, v in expected.items():
            got = o.observe(n)
            check(got[0] == n and float(got[1]) == v, lambda: f"observed {got} instead of {v} of {n} after {k} steps", "value")
    check(e.sim.step == k, lambda: f"the clock shows step {e.sim.step} after {k} steps", "step")
    tau = e.physical_system.tau
    check(e.sim.tau == tau and abs(e.sim.t - k * tau) <= 1e-12, lambda: f"time {e.sim.t} after {k} steps of {tau}", "time")
    return len(expected)


def run_unknown(case):
    env = g.build(case["spec"])
    o = StateObserver(env)
    known = list(env.state_names) + [r + "_ref" for r in env.reference_names]
    name = case["name"]

    def rejected(n):
        try:
            o.observe(n)
        except Exception:
            return True
        return False

    check(rejected("omega" if "omega" in known else known[0]), "a value is observed before the first reset", "fresh")
    env.reset(seed=0)
    if name in known:
        return False, ["known"]
    check(rejected(name), lambda: f"the unknown name {name!r} was observed", "unknown")
    return True, ["filtered" if name in env.physical_system.state_names else "unknown"]


FEATURES = ("tau", "solver", "supply", "mp", "minit", "load", "ref", "constraints", "wrappers", "filter")
_specs = g.specs(features=FEATURES)
_ops = st.lists(
    st.tuples(st.integers(0, 2), st.sampled_from(["step", "step", "step", "step_reset", "reset"]), g.UVEC).map(list),
    min_size=2, max_size=25,
)  # fmt: skip
_names = st.one_of(
    st.sampled_from(sorted({n for v in g.SYSTEM_STATES.values() for n in v})),
    st.sampled_from(["omega_ref", "torque_ref", "i_sd_ref", "_ref", "ref", "Omega", "omega ", "i", "i_ref_ref"]),
)


def _motor_cases(act):
    return st.sampled_from([dict(id=i, plan=[[[300, 700, 500], 2]]) for i in g.IDS if i.startswith(act)])


SUBS = [
    Sub("motor_finite", _motor_cases("Finite"), run_motor, 27, 27, shards=1),
    Sub("motor_cont", _motor_cases("Cont"), run_motor, 27, 27, shards=1),
    Sub(
        "observe",
        st.fixed_dictionaries(
            dict(specs=st.lists(_specs, min_size=1, max_size=2), ops=_ops, twice=st.booleans(), wrapped=st.booleans())
        ),
        run_observe, 500, 15000, shards=6,
    ),
    Sub("unknown", st.fixed_dictionaries(dict(spec=_specs, name=_names)), run_unknown, 300, 6000, shards=2),
]  # fmt: skip
