"""C22: dashboards and the console printer show exactly the simulated data and never influence it."""
import contextlib
import io
import os
import re
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.backends.backend_agg import FigureCanvasAgg

from gym_electric_motor import visualization as vis
from gym_electric_motor.core import Callback
from gym_electric_motor.visualization import motor_dashboard_plots as mdp
from gym_electric_motor.visualization.render_modes import RenderMode
from lib import gemlib as g
from lib.harness import Sub, check

PROPERTY = "C22"
RULE = (
    "dashboard: a drive with any configuration and a dashboard with arbitrary plots, update interval and window, over a "
    "history of seeded resets, steps, violations, renders and figure resets; after every update that is due the line data "
    "of all axes is compared with the data the environment returned (physical units, cumulative time, sliding window), as "
    "are violation/reset markers, episode and step statistics, limit lines and visible range; a twin without dashboard "
    "plays the same history; non-trivial if at least two comparisons covered at least 5 steps. console: the console "
    "printer over such histories with renders at arbitrary times, its output parsed and compared; non-trivial if an "
    "episode end was printed or two step lines."
)


class Violate:
    """A user-defined constraint, violated in the given (cumulative) steps."""

    def __init__(self, at):
        self.at, self.n = set(at), 0

    def __call__(self, state):
        self.n += 1
        return 1.0 if self.n in self.at else 0.0


class Rec(Callback):
    def __init__(self):
        super().__init__()
        self.last = None

    def on_step_end(self, k, state, reference, reward, terminated):
        self.last = (int(k), np.copy(state), np.copy(reference))

    def on_reset_end(self, state, reference):
        self.last = (0, np.copy(state), np.copy(reference))


# ------------------------------------------------------------------------------------------------------ dashboard
EXTRA = {
    "mean": mdp.MeanEpisodeRewardPlot,
    "length": mdp.EpisodeLengthPlot,
    "cum": mdp.CumulativeConstraintViolationPlot,
    "reward": mdp.RewardPlot,
}


def make_plot(p):
    if p[0] == "state":
        return mdp.StatePlot(p[1])
    if p[0] == "action":
        return mdp.ActionPlot(p[1])
    return EXTRA[p[0]]()


def n_actions(env):
    sp = env.action_space
    return 1 if type(sp).__name__ == "Discrete" else sp.shape[0]


def opened():
    return [plt.figure(num) for num in plt.get_fignums()]


class Figures:
    """The open figures (or the given ones), by their x-label; in a notebook all plots share one figure."""

    def __init__(self, notebook=False, counts=(), figures=None):
        self.by = {}
        for fig in opened() if figures is None else figures:
            check(fig in opened(), "a figure of the dashboard was closed", "figure-closed")
            axes = fig.get_axes()
            parts = [axes]
            if notebook:
                check(len(axes) == sum(counts), f"{len(axes)} axes for {counts} plots")
                parts, lo = [], 0
                for n in counts:
                    parts += [axes[lo : lo + n]] if n else []
                    lo += n
            for part in parts:
                self.by[part[-1].get_xlabel().strip("$").split("$")[0].split("/")[0]] = part

    def get(self, name, n):
        if n == 0:
            check(name not in self.by, f"a figure for {name} although no such plot was requested")
            return []
        check(name in self.by, f"no figure with x-axis {name}: {sorted(self.by)}", "figure-missing")
        axes = self.by[name]
        check(len(axes) == n, f"figure {name}: {len(axes)} axes for {n} plots")
        return axes


def data_lines(ax):
    out, v, h = [], [], []
    for line in ax.get_lines():
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        if line.get_marker() not in (None, "None", "", " "):
            out.append((x, y))
        elif len(x) == 2 and x[0] == x[1]:
            v.append((float(x[0]), line.get_color()))
        elif len(x) == 2 and y[0] == y[1]:
            h.append(float(y[0]))
        else:
            out.append((x, y))
    return out, v, h


def points(x, y):
    m = np.isfinite(y)
    o = np.argsort(x[m], kind="stable")
    return np.column_stack([x[m][o], y[m][o]])


def same_points(a, b, tau):
    return a.shape == b.shape and np.allclose(a[:, 0], b[:, 0], rtol=1e-9, atol=1e-6 * tau) and np.allclose(
        a[:, 1], b[:, 1], rtol=1e-9, atol=1e-12
    )


class Model:
    """What the environment has returned since the figures were started."""

    def __init__(self):
        self.started = False  # any reset at all
        self.done = False
        self.steps_total = 0
        self.clear()

    def clear(self):
        self.steps = []  # (action, state, reference, reward, terminated)
        self.markers = []
        self.episodes = []  # finished: list of rewards
        self.current = None

    def reset(self, tau):
        if self.started:
            self.markers.append((len(self.steps) * tau, "red" if self.done else "blue"))
        if self.current is not None:
            self.episodes.append(self.current)
        self.current = []
        self.started, self.done = True, False

    def step(self, action, state, ref, reward, term):
        self.steps.append((action, state, ref, reward, term))
        self.steps_total += 1
        self.done = term
        if self.current is not None:
            self.current.append(reward)


def compare(env, model, plots, width, scaled, notebook=False, figures=None):
    """plots: time, episode and step plots in their order of display."""
    tau, names = env.physical_system.tau, list(env.physical_system.state_names)
    limits, space = env.physical_system.limits, env.physical_system.state_space
    time_plots, ep_plots, step_plots = plots
    figs = Figures(notebook, [len(p) for p in plots], figures)
    n = len(model.steps)
    first = max(1, n - width + 1)
    window = range(first, n + 1)
    for p, ax in zip(time_plots, figs.get("t", len(time_plots))):
        lines, vlines, hlines = data_lines(ax)
        if p[0] == "state":
            i = names.index(p[1])
            want = [np.array([[k * tau, model.steps[k - 1][1][i] * limits[i]] for k in window]).reshape(-1, 2)]
            if env.reference_generator.referenced_states[i]:
                want.append(np.array([[k * tau, model.steps[k - 1][2][i] * limits[i]] for k in window]).reshape(-1, 2))
            hi, lo = limits[i] * space.high[i], limits[i] * space.low[i]
            if limits[i] == space.high[i]:
                hi, lo = space.high[i], space.low[i]
            check(any(np.isclose(h, hi) for h in hlines), lambda: f"limit {hi} of {p[1]} not shown: {hlines}", "limit-line")
            check(
                any(np.isclose(h, lo) for h in hlines) == (lo < 0) or np.isclose(lo, hi) or len(hlines) == 1 and lo >= 0,
                lambda: f"lower limit {lo} of {p[1]}: {hlines}",
                "limit-line",
            )
        elif p[0] == "action":
            want = [
                np.array([[(k - 1) * tau, np.ravel(model.steps[k - 1][0])[p[1]]] for k in window], float).reshape(-1, 2)
            ]
        else:
            want = [np.array([[(k - 1) * tau, model.steps[k - 1][3]] for k in window]).reshape(-1, 2)]
        check(len(lines) == len(want), f"{p}: {len(lines)} data lines instead of {len(want)}", "lines")
        for j, (w, (x, y)) in enumerate(zip(want, lines)):
            got = points(x, y)
            check(
                same_points(got, w[np.isfinite(w[:, 1])], tau),
                lambda: f"{p} line {j} after {n} steps (window {width}): shown {got[-3:].tolist()} ({len(got)} points), "
                f"simulated {w[-3:].tolist()} ({len(w)} points)",
                f"data-{p[0]}",
            )
            if len(w):
                lo, hi = ax.get_xlim()
                check(
                    lo - 1e-3 * tau <= w[0, 0] and w[-1, 0] <= hi + 1e-3 * tau,
                    lambda: f"{p}: x-range {lo, hi} does not show the times {w[0, 0], w[-1, 0]}",
                    "x-range",
                )
                yl, yh = ax.get_ylim()
                tol = 1e-9 * (abs(yl) + abs(yh))
                fin = w[np.isfinite(w[:, 1]), 1]
                if scaled and len(fin):
                    check(
                        yl - tol <= fin.min() and fin.max() <= yh + tol,
                        lambda: f"{p}: y-range {yl, yh} does not show {fin.min(), fin.max()}",
                        "y-range",
                    )
        got = sorted((t, c) for t, c in vlines if t > 0.5 * tau)
        exp = sorted((t, c) for t, c in model.markers if t > 0.5 * tau)
        check(
            len(got) == len(exp) and all(abs(a[0] - b[0]) < 1e-3 * tau and a[1] == b[1] for a, b in zip(got, exp)),
            lambda: f"{p}: markers {got} instead of {exp}",
            "markers",
        )
    for p, ax in zip(ep_plots, figs.get("Episode No", len(ep_plots))):
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]
        check(len(lines) == 1, f"{p}: {len(lines)} lines")
        x, y = lines[0]
        exp = [len(e) if p[0] == "length" else (np.mean(e) if e else np.nan) for e in model.episodes]
        check(
            len(x) == len(exp) and np.array_equal(x, np.arange(len(exp))) and np.allclose(y, exp, rtol=1e-9, equal_nan=True),
            lambda: f"{p}: shown {x.tolist()} {y.tolist()}, simulated {exp}",
            f"episodes-{p[0]}",
        )
    for p, ax in zip(step_plots, figs.get("Cumulative Steps", len(step_plots))):
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]
        check(len(lines) == 1, f"{p}: {len(lines)} lines")
        x, y = lines[0]
        viol = [i + 1 for i, s in enumerate(model.steps) if s[4]]
        check(
            len(x) == len(y) and all(b == sum(v <= a for v in viol) for a, b in zip(x, y)) and set(viol) <= set(x.tolist()),
            lambda: f"{p}: shown {x.tolist()} {y.tolist()}, violations in steps {viol}",
            "cumulative",
        )
    return n


def run_dashboard(case):
    backend = plt.get_backend
    try:
        if case.get("notebook"):
            plt.get_backend = lambda: case["notebook"]
        return _run_dashboard(case)
    finally:
        plt.get_backend = backend
        plt.close("all")


def _run_dashboard(case):
    plt.close("all")
    spec = case["spec"]
    extras = [make_plot(p) for p in case["extra"]]
    kw = dict(
        state_plots="all" if case["states"] == "all" else list(case["states"]),
        action_plots="all" if case["actions"] == "all" else tuple(case["actions"]),
        reward_plot=case["reward"],
        additional_plots=tuple(extras),
        update_interval=case["interval"],
        time_plot_width=case["width"],
    )
    if case["mode"] is not None:
        kw["render_mode"] = RenderMode[case["mode"]]
    dash = vis.MotorDashboard(**kw) if case["as"] != "dict" else kw
    rec = Rec()
    own = case["as"] != "default"
    env = g.build(
        spec,
        visualization=dash if own else None,
        callbacks=(rec,),
        constraints=(Violate(case["violate"]),),
        scale_plots=case["scale"],
    )
    dash = env.visualizations[0]
    twin = g.build(spec, constraints=(Violate(case["violate"]),))
    names = list(env.physical_system.state_names)
    acts = list(range(n_actions(env))) if case["actions"] == "all" else list(case["actions"])
    time_plots = [("state", s) for s in (names if case["states"] == "all" else case["states"])]
    time_plots += [("action", i) for i in acts]
    time_plots += [("reward",)] if case["reward"] else []
    time_plots += [tuple(p) for p in case["extra"] if p[0] in ("state", "action", "reward")]
    plots = (
        time_plots,
        [p for p in case["extra"] if p[0] in ("mean", "length")],
        [p for p in case["extra"] if p[0] == "cum"],
    )
    model, tau = Model(), env.physical_system.tau
    compared, flags = [], set()
    interval = int(case["interval"])
    state = dict(due=False, open=False, rendered=False)
    any_plot = sum(len(p) for p in plots) > 0

    def look(due):
        if own and any_plot and due and state["open"]:
            compared.append(compare(env, model, plots, int(case["width"]), case["scale"], case.get("notebook")))

    def render():
        env.render()
        due, state["due"], state["open"] = state["due"], False, True
        look(due)

    def reset(seed):
        model.reset(tau)
        (s, r), _ = env.reset(seed=seed)
        (s2, r2), _ = twin.reset(seed=seed)
        check(np.array_equal(s, s2) and np.array_equal(r, r2), "the dashboard changes the initial observation", "influence")

    reset(case["seed"])
    for op in case["ops"]:
        if op[0] == "reset":
            reset(op[1])
        elif op[0] == "render":
            render()
        elif op[0] == "figures":
            dash.reset_figures()
            plt.close("all")
            model.clear()
            state["open"] = False
            flags.add("figures reset")
        else:
            for k in range(op[2]):
                a = g.action(env.action_space, op[1])
                if type(env.action_space).__name__ == "Box" and k % 2:
                    a = 0.5 * a
                (s, r), rew, term, _, _ = env.step(np.copy(a) if not isinstance(a, int) else a)
                (s2, r2), rew2, term2, _, _ = twin.step(np.copy(a) if not isinstance(a, int) else a)
                check(
                    np.array_equal(s, s2, equal_nan=True)
                    and np.array_equal(r, r2, equal_nan=True)
                    and rew == rew2
                    and term == term2,
                    lambda: f"the dashboard changes the trajectory: {s.tolist()} vs {s2.tolist()}",
                    "influence",
                )
                full = rec.last[1]
                check(np.array_equal(s, full[env.state_filter]), "observation and callback data differ")
                model.step(a, full, rec.last[2], float(rew), bool(term))
                if model.steps_total % interval == 0:
                    state["due"] = True
                if case["mode"] == "Figure":
                    due, state["due"], state["open"] = state["due"], False, True
                    look(due)
                if term:
                    flags.add("violation")
                    reset(None)
    final = case["final"]
    if own:
        if final == "close":
            env.close()
            if case["mode"] == "FigureOnce":
                state["open"] = True
                look(True)
        elif final == "force" or case["mode"] is None:
            dash.force_render()
            state["open"] = True
            look(True)
        elif final == "save" and len([p for p in plots if p]) == 1:
            saved(dash)
            state["open"] = True
            look(True)
            flags.add("saved")
    if case["draw"] and plt.get_fignums():
        flags.add("drawn")
        for num in plt.get_fignums():
            DRAW(plt.figure(num).canvas)
    plt.close("all")
    if scaled := case["scale"]:
        flags.add("scaled")
    return len([c for c in compared if c >= 5]) >= 2, sorted(flags) + [case["as"], f"mode {case['mode']}"]


def saved(dash):
    """The figure is written to the named file in the folder for plots, nowhere else."""
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                dash.save_to_file("name")
                dash.save_to_file()
        finally:
            os.chdir(old)
        found = sorted(os.path.join(os.path.relpath(b, d), f) for b, _, ff in os.walk(d) for f in ff)
        check(
            len(found) == 2 and "saved_plots/name.png" in found and all(f.endswith(".png") for f in found),
            f"saved files {found}",
            "saved",
        )
        check(all(os.path.getsize(os.path.join(d, f)) > 1000 for f in found), "an empty file was saved", "saved")
    check([dash.figure()] == opened(), "figure() is not the figure of the dashboard", "figure")


DRAW = FigureCanvasAgg.draw


def prepare():
    """Rasterising is replaced (except for the cases that ask for it): only the data is looked at."""
    FigureCanvasAgg.draw = lambda self, *a, **k: setattr(self, "renderer", self.get_renderer())
    plt.pause = lambda *a, **k: None


@st.composite
def dashboard_cases(draw):
    spec = draw(g.specs(features=("tau", "ref", "wrappers", "load"), p_feature=0.3))
    spec.pop("filter", None)
    act, task, motor = g.split(spec["id"])
    names = [n for n in g.SYSTEM_STATES[motor]]
    if any(w["kind"] == "cossin" for w in spec.get("wrappers", [])):
        names = [n for n in names if n != "epsilon"]
    if any(w["kind"] == "noise" for w in spec.get("wrappers", [])):
        spec["wrappers"] = [w for w in spec["wrappers"] if w["kind"] != "noise"]
    if any(w["kind"] == "flux" for w in spec.get("wrappers", [])):
        spec["wrappers"] = [w for w in spec["wrappers"] if w["kind"] != "flux"]
    kinds = [("mean",), ("length",), ("cum",), ("reward",), ("action", 0), ("state", draw(st.sampled_from(names)))]
    extra = draw(st.lists(st.sampled_from(kinds), max_size=3))
    step = st.tuples(st.just("step"), g.UVEC, st.integers(1, 12))
    op = st.one_of(
        step,
        step,
        step,
        st.tuples(st.just("reset"), st.one_of(st.none(), st.integers(0, 99))),
        st.tuples(st.just("render")),
        st.tuples(st.just("render")),
        st.sampled_from([("figures",), ("render",), ("render",)]),
    )
    return dict(
        spec=spec,
        states=draw(st.one_of(st.lists(st.sampled_from(names), max_size=3, unique=True), st.just("all"))),
        actions=draw(st.one_of(st.just([]), st.just([0]), st.just("all"))),
        reward=draw(st.booleans()),
        extra=[list(p) for p in extra],
        interval=draw(st.sampled_from([1, 1, 2, 3, 5.0, 8])),
        width=draw(st.sampled_from([2, 3, 7, 10, 25, 60, 100.0])),
        mode=draw(st.sampled_from([None, None, "Figure", "FigureOnce"])),
        scale=draw(st.booleans()),
        violate=draw(st.lists(st.integers(1, 60), max_size=5, unique=True)),
        seed=draw(st.integers(0, 999)),
        ops=draw(
            st.lists(
                st.tuples(st.lists(op, max_size=5), st.sampled_from([[], [["render"]], [["step", [300, 800], 5], ["render"]]]))
                .map(lambda t: [list(o) for o in t[0]] + t[1]),
                min_size=1,
                max_size=5,
            ).map(lambda ll: sum(ll, []))
        ),
        final=draw(st.sampled_from(["force", "force", "close", "none", "save"])),
        draw=draw(st.integers(0, 9)) == 0,
        notebook=draw(st.sampled_from([None, None, None, "nbAgg", "module://ipympl.backend_nbagg"])),
        **{"as": draw(st.sampled_from(["instance", "instance", "dict", "default"]))},
    )


def run_several(case):
    """Several dashboards, of the same or of different environments, beside a figure of the user."""
    plt.close("all")
    try:
        own_figure = plt.figure()
        own_figure.gca().plot([0, 1], [2, 3])
        drives = []
        for spec, dashes in zip(case["specs"], case["dashes"]):
            rec, boards = Rec(), []
            for d in dashes:
                boards.append(
                    dict(
                        dash=vis.MotorDashboard(
                            state_plots=d["states"], reward_plot=d["reward"], update_interval=d["interval"], time_plot_width=40
                        ),
                        plots=([("state", s) for s in d["states"]] + ([("reward",)] if d["reward"] else []), [], []),
                        interval=d["interval"],
                        model=Model(),
                        figures=None,
                        due=False,
                    )
                )
            env = g.build(spec, visualization=[b["dash"] for b in boards], callbacks=(rec,))
            drives.append(dict(env=env, boards=boards, rec=rec))
        compared = 0

        def restart(drive, seed=None):
            for b in drive["boards"]:
                b["model"].reset(drive["env"].physical_system.tau)
            drive["env"].reset(seed=seed)

        for drive in drives:
            restart(drive, case["seed"])
        for op in case["ops"]:
            drive = drives[op[1] % len(drives)]
            env = drive["env"]
            if op[0] == "reset":
                restart(drive)
            elif op[0] == "figures":
                b = drive["boards"][op[2] % len(drive["boards"])]
                b["dash"].reset_figures()
                b["model"].clear()
                b["figures"] = None
            elif op[0] == "render":
                before = opened()
                one = op[2] % (len(drive["boards"]) + 1)
                todo = drive["boards"] if one == 0 else [drive["boards"][one - 1]]
                for b in todo:
                    b["dash"].render()
                    new = [f for f in opened() if f not in before]
                    before += new
                    if b["figures"] is None:
                        check(len(new) == 1, f"a dashboard with time plots opened {len(new)} figures", "figures")
                        b["figures"] = new
                    else:
                        check(not new, "a rendered dashboard opens another figure", "figures")
                check(
                    own_figure in opened() and len(own_figure.gca().get_lines()) == 1,
                    "a figure of the user was closed or drawn into",
                    "figure-closed",
                )
                for b in todo:
                    if b["due"]:
                        b["due"] = False
                        compared += compare(env, b["model"], b["plots"], 40, False, figures=b["figures"]) > 0
            else:
                for _ in range(op[3]):
                    a = g.action(env.action_space, op[2])
                    _, rew, term, _, _ = env.step(a)
                    for b in drive["boards"]:
                        b["model"].step(a, drive["rec"].last[1], drive["rec"].last[2], float(rew), bool(term))
                        if b["model"].steps_total % b["interval"] == 0:
                            b["due"] = True
                    if term:
                        restart(drive)
        for drive in drives:
            for b in drive["boards"]:
                b["dash"].force_render()
                if b["figures"] is not None:
                    compared += compare(drive["env"], b["model"], b["plots"], 40, False, figures=b["figures"]) > 0
        return compared >= 2, [f"{sum(len(d['boards']) for d in drives)} dashboards"]
    finally:
        plt.close("all")


@st.composite
def several_cases(draw):
    specs, dashes = [], []
    for _ in range(draw(st.integers(1, 3))):
        spec = draw(g.specs(features=("tau", "ref", "load"), p_feature=0.2))
        spec.pop("filter", None)
        names = list(g.SYSTEM_STATES[g.split(spec["id"])[2]])
        specs.append(spec)
        dashes.append(
            draw(
                st.lists(
                    st.fixed_dictionaries(
                        dict(
                            states=st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True),
                            reward=st.booleans(),
                            interval=st.sampled_from([1, 1, 3]),
                        )
                    ),
                    min_size=1,
                    max_size=2,
                )
            )
        )
    which = st.integers(0, 5)
    step = st.tuples(st.just("step"), which, g.UVEC, st.integers(1, 8))
    render = st.tuples(st.just("render"), which, which)
    op = st.one_of(step, step, render, render, st.tuples(st.sampled_from(["reset", "figures"]), which, which))
    return dict(
        specs=specs, dashes=dashes, seed=draw(st.integers(0, 99)), ops=[list(o) for o in draw(st.lists(op, min_size=4, max_size=16))]
    )


# -------------------------------------------------------------------------------------------------------- console
NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|nan|inf))"
END = re.compile(r"Episode (\d+)\s+(Constraint Violation!|External Reset\.)\s+Number of steps:\s+(\d+)\s+Cumulative Reward:\s*" + NUM)
STEP = re.compile(
    r"Episode (\d+) Step\s+(\d+) State \[(.*?)\] Reference \[(.*?)\] Reward\s*" + NUM + r" Cumulative Reward\s*" + NUM, re.S
)


def near(a, b):
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 6e-4 + 1e-9 * abs(b)


def run_console(case):
    opts = np.get_printoptions()
    try:
        rec = Rec()
        printer = vis.ConsolePrinter(verbose=case["verbose"], update_freq=case["freq"])
        env = g.build(case["spec"], visualization=printer, callbacks=(rec,), constraints=(Violate(case["violate"]),))
        twin = g.build(case["spec"], constraints=(Violate(case["violate"]),))
        limits = env.physical_system.limits
        ended, episode, rewards, last, seen_end, seen_step = [], -1, [], None, 0, 0
        done = False

        def reset(seed):
            nonlocal episode, rewards, done, last
            if episode >= 0:
                ended.append((done, len(rewards), sum(rewards)))
            episode, rewards, done, last = episode + 1, [], False, np.nan
            (s, r), _ = env.reset(seed=seed)
            (s2, r2), _ = twin.reset(seed=seed)
            check(np.array_equal(s, s2) and np.array_equal(r, r2), "the printer changes the initial observation", "influence")

        printed = 0
        reset(case["seed"])
        for op in case["ops"]:
            if op[0] == "reset":
                reset(op[1])
            elif op[0] == "step":
                for _ in range(op[2]):
                    a = g.action(env.action_space, op[1])
                    (s, r), rew, term, _, _ = env.step(a)
                    (s2, _), rew2, term2, _, _ = twin.step(a)
                    check(np.array_equal(s, s2) and rew == rew2 and term == term2, "the printer changes the trajectory", "influence")
                    rewards.append(float(rew))
                    last, done = float(rew), bool(term)
                    if term:
                        reset(None)
            else:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    env.render()
                text = buf.getvalue()
                ends, steps = END.findall(text), STEP.findall(text)
                if case["verbose"] == 0:
                    check(text == "", f"a silent printer printed {text[:100]!r}", "silent")
                    continue
                check(
                    len(ends) == len(ended)
                    and all(
                        int(e[0]) == printed + j
                        and (e[1].startswith("Constraint")) == w[0]
                        and int(e[2]) == w[1]
                        and near(e[3], w[2])
                        for j, (e, w) in enumerate(zip(ends, ended))
                    ),
                    lambda: f"episode ends printed {ends}, simulated (from episode {printed}) {ended}",
                    "ends",
                )
                printed += len(ended)
                seen_end += len(ended)
                ended.clear()
                want = case["verbose"] == 2 and len(rewards) % case["freq"] == 0
                check(len(steps) == int(want), lambda: f"step line printed {len(steps)} times in step {len(rewards)}", "lines")
                if want:
                    seen_step += 1
                    e, k, ss, rr, rew, cum = steps[0]
                    vals = [float(v) for v in ss.split()]
                    refs = [float(v) for v in rr.split()]
                    check(
                        int(e) == episode
                        and int(k) == len(rewards)
                        and len(vals) == len(limits)
                        and all(near(v, w) for v, w in zip(vals, rec.last[1] * limits))
                        and all(near(v, w) for v, w in zip(refs, rec.last[2] * limits))
                        and near(rew, last)
                        and near(cum, sum(rewards)),
                        lambda: f"printed {steps[0]}, simulated episode {episode} step {len(rewards)} "
                        f"{(rec.last[1] * limits).tolist()} {(rec.last[2] * limits).tolist()} {last} {sum(rewards)}",
                        "step-line",
                    )
        return seen_end > 0 or seen_step > 1, [f"verbose {case['verbose']}"]
    finally:
        np.set_printoptions(**{k: v for k, v in opts.items() if k not in ("override_repr",)})


@st.composite
def console_cases(draw):
    spec = draw(g.specs(features=("ref", "load"), p_feature=0.3))
    op = st.one_of(
        st.tuples(st.just("step"), g.UVEC, st.integers(1, 6)),
        st.tuples(st.just("step"), g.UVEC, st.integers(1, 6)),
        st.tuples(st.just("reset"), st.one_of(st.none(), st.integers(0, 99))),
        st.tuples(st.just("render")),
        st.tuples(st.just("render")),
    )
    return dict(
        spec=spec,
        verbose=draw(st.sampled_from([0, 1, 1, 2, 2, 2])),
        freq=draw(st.sampled_from([1, 1, 2, 3])),
        violate=draw(st.lists(st.integers(1, 25), max_size=4, unique=True)),
        seed=draw(st.integers(0, 999)),
        ops=[list(o) for o in draw(st.lists(op, min_size=3, max_size=20))],
    )


SUBS = [
    Sub("dashboard", dashboard_cases(), run_dashboard, 800, 12000, shards=8),
    Sub("several", several_cases(), run_several, 300, 6000, shards=4),
    Sub("console", console_cases(), run_console, 800, 12000, shards=4),
]
