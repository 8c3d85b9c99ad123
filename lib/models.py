"""Independent reference models.

Everything here is written down from the documentation of the machines (flux linkage form, i.e. u = R i + dpsi/dt), not
from the state-space constants used by the simulation.
"""
import math

import numpy as np

S3 = math.sqrt(3.0)


# ------------------------------------------------------------------------------------------------ transformations
def t23(abc):
    a, b, c = abc
    return np.array([2.0 / 3.0 * (a - 0.5 * b - 0.5 * c), (b - c) / S3])


def t32(ab):
    a, b = ab
    return np.array([a, -0.5 * a + 0.5 * S3 * b, -0.5 * a - 0.5 * S3 * b])


def rot(v, eps):
    """Rotate a two-phase vector by +eps (dq -> alphabeta)."""
    c, s = math.cos(eps), math.sin(eps)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


def park(abc, eps):
    return rot(t23(abc), -eps)


def inv_park(dq, eps):
    return t32(rot(dq, eps))


def wrap(eps):
    """to (-pi, pi]"""
    e = math.fmod(eps, 2 * math.pi)
    if e <= -math.pi:
        e += 2 * math.pi
    elif e > math.pi:
        e -= 2 * math.pi
    return e


# ------------------------------------------------------------------------------------------------ machines
class Machine:
    """x: electrical state in the order of the simulation's motor ODE.  u: the vector electrical_ode gets."""

    def __init__(self, motor, mp):
        self.motor, self.mp = motor, mp
        if motor in ("SCIM", "DFIM"):
            ls, lr, lm = mp["l_m"] + mp["l_sigs"], mp["l_m"] + mp["l_sigr"], mp["l_m"]
            self.L = np.array([[ls, lm], [lm, lr]])
            self.lr, self.lm = lr, lm
        if motor == "EESM":
            k = mp["k"]
            self.l_M, self.l_E, self.r_E = 1.5 * k * mp["l_m"], 1.5 * k * k * mp["l_e"], 1.5 * k * k * mp["r_e"]
            self.cI = 2.0 / (3.0 * k)
            self.L = np.array([[mp["l_d"], self.l_M], [self.l_M, self.l_E]])

    # derivative of the electrical state
    def ode(self, x, u, w):
        mp, m = self.mp, self.motor
        if m == "PermExDc":
            return np.array([(u[0] - mp["r_a"] * x[0] - mp["psi_e"] * w) / mp["l_a"]])
        if m == "ExtExDc":
            return np.array(
                [
                    (u[0] - mp["r_a"] * x[0] - mp["l_e_prime"] * x[1] * w) / mp["l_a"],
                    (u[1] - mp["r_e"] * x[1]) / mp["l_e"],
                ]
            )
        if m == "ShuntDc":
            return np.array(
                [
                    (u[0] - mp["r_a"] * x[0] - mp["l_e_prime"] * x[1] * w) / mp["l_a"],
                    (u[0] - mp["r_e"] * x[1]) / mp["l_e"],
                ]
            )
        if m == "SeriesDc":
            # one current through both windings
            return np.array(
                [(u[0] - (mp["r_a"] + mp["r_e"]) * x[0] - mp["l_e_prime"] * x[0] * w) / (mp["l_a"] + mp["l_e"])]
            )
        we = mp["p"] * w if "p" in mp else None
        if m in ("PMSM", "SynRM"):
            psi_d, psi_q = mp["l_d"] * x[0] + mp.get("psi_p", 0.0), mp["l_q"] * x[1]
            return np.array(
                [
                    (u[0] - mp["r_s"] * x[0] + we * psi_q) / mp["l_d"],
                    (u[1] - mp["r_s"] * x[1] - we * psi_d) / mp["l_q"],
                    we,
                ]
            )
        if m == "EESM":
            i_E = self.cI * x[2]
            psi_d, psi_q = mp["l_d"] * x[0] + self.l_M * i_E, mp["l_q"] * x[1]
            rhs = np.array(
                [u[0] - mp["r_s"] * x[0] + we * psi_q, mp["k"] * u[2] - self.r_E * i_E]
            )
            d_d, d_E = np.linalg.solve(self.L, rhs)
            d_q = (u[1] - mp["r_s"] * x[1] - we * psi_d) / mp["l_q"]
            return np.array([d_d, d_q, d_E / self.cI, we])
        # induction machines in the stator frame
        u = np.asarray(u, float)
        if u.ndim == 1:
            us, ur = u[:2], np.zeros(2)
        else:
            us, ur = u[0], u[1]
        i_s, psi_r = x[:2], x[2:4]
        i_r = (psi_r - self.lm * i_s) / self.lr
        J = np.array([[0.0, -1.0], [1.0, 0.0]])
        d_psi_r = ur - mp["r_r"] * i_r + we * (J @ psi_r)
        d_psi_s = us - mp["r_s"] * i_s
        # psi = L i for both axes: solve for the current derivatives
        d_i = np.linalg.solve(self.L, np.array([d_psi_s, d_psi_r]))
        return np.concatenate([d_i[0], d_psi_r, [we]])

    def torque(self, x):
        mp, m = self.mp, self.motor
        if m == "PermExDc":
            return mp["psi_e"] * x[0]
        if m in ("ExtExDc", "ShuntDc"):
            return mp["l_e_prime"] * x[0] * x[1]
        if m == "SeriesDc":
            return mp["l_e_prime"] * x[0] ** 2
        if m in ("PMSM", "SynRM"):
            psi_d, psi_q = mp["l_d"] * x[0] + mp.get("psi_p", 0.0), mp["l_q"] * x[1]
            return 1.5 * mp["p"] * (psi_d * x[1] - psi_q * x[0])
        if m == "EESM":
            psi_d, psi_q = mp["l_d"] * x[0] + self.l_M * self.cI * x[2], mp["l_q"] * x[1]
            return 1.5 * mp["p"] * (psi_d * x[1] - psi_q * x[0])
        i_s, psi_r = x[:2], x[2:4]
        i_r = (psi_r - self.lm * i_s) / self.lr
        psi_s = self.L[0, 0] * i_s + self.lm * i_r
        return 1.5 * mp["p"] * (psi_s[0] * i_s[1] - psi_s[1] * i_s[0])

    def n_states(self):
        return {"PermExDc": 1, "SeriesDc": 1, "ShuntDc": 2, "ExtExDc": 2, "PMSM": 3, "SynRM": 3, "EESM": 4}.get(
            self.motor, 5
        )

    # power balance: electrical input, copper losses, stored energy
    def p_in(self, x, u):
        m = self.motor
        if m in ("PermExDc", "SeriesDc"):
            return u[0] * x[0]
        if m == "ShuntDc":
            return u[0] * (x[0] + x[1])
        if m == "ExtExDc":
            return u[0] * x[0] + u[1] * x[1]
        if m in ("PMSM", "SynRM"):
            return 1.5 * (u[0] * x[0] + u[1] * x[1])
        if m == "EESM":
            return 1.5 * (u[0] * x[0] + u[1] * x[1]) + u[2] * x[2]
        u = np.asarray(u, float)
        us, ur = (u[:2], np.zeros(2)) if u.ndim == 1 else (u[0], u[1])
        i_r = (x[2:4] - self.lm * x[:2]) / self.lr
        return 1.5 * (us @ x[:2] + ur @ i_r)

    def p_loss(self, x):
        mp, m = self.mp, self.motor
        if m == "PermExDc":
            return mp["r_a"] * x[0] ** 2
        if m == "SeriesDc":
            return (mp["r_a"] + mp["r_e"]) * x[0] ** 2
        if m in ("ShuntDc", "ExtExDc"):
            return mp["r_a"] * x[0] ** 2 + mp["r_e"] * x[1] ** 2
        if m in ("PMSM", "SynRM"):
            return 1.5 * mp["r_s"] * (x[0] ** 2 + x[1] ** 2)
        if m == "EESM":
            return 1.5 * mp["r_s"] * (x[0] ** 2 + x[1] ** 2) + mp["r_e"] * x[2] ** 2
        i_r = (x[2:4] - self.lm * x[:2]) / self.lr
        return 1.5 * (mp["r_s"] * (x[:2] @ x[:2]) + mp["r_r"] * (i_r @ i_r))

    def energy(self, x):
        """magnetic energy (without the constant contribution of permanent magnets)"""
        mp, m = self.mp, self.motor
        if m == "PermExDc":
            return 0.5 * mp["l_a"] * x[0] ** 2
        if m == "SeriesDc":
            return 0.5 * (mp["l_a"] + mp["l_e"]) * x[0] ** 2
        if m in ("ShuntDc", "ExtExDc"):
            return 0.5 * (mp["l_a"] * x[0] ** 2 + mp["l_e"] * x[1] ** 2)
        if m in ("PMSM", "SynRM"):
            return 0.75 * (mp["l_d"] * x[0] ** 2 + mp["l_q"] * x[1] ** 2)
        if m == "EESM":
            iE = self.cI * x[2]
            v = np.array([x[0], iE])
            return 0.75 * (v @ self.L @ v + mp["l_q"] * x[1] ** 2)
        i_r = (x[2:4] - self.lm * x[:2]) / self.lr
        return 0.75 * sum(np.array([x[k], i_r[k]]) @ self.L @ np.array([x[k], i_r[k]]) for k in range(2))

    def denergy(self, x, dx):
        """d/dt of the magnetic energy (exact, the energy is a quadratic form)"""
        nx, nd = np.max(np.abs(x)) + 1e-30, np.max(np.abs(dx)) + 1e-30
        h = nx / nd
        return 0.5 * (self.energy(x + h * dx) - self.energy(x - h * dx)) / h

    def rk4(self, x, u, w, dt, n, j_total, t_load):
        """integrate electrical and mechanical equation with constant voltages; t_load(w) -> load torque"""
        h = dt / n
        z = np.concatenate([x, [w]])

        def fz(z):
            x, w = z[:-1], z[-1]
            dw = 0.0 if t_load is None else (self.torque(x) - t_load(w)) / j_total
            return np.concatenate([self.ode(x, u, w), [dw]])

        for _ in range(n):
            k1 = fz(z)
            k2 = fz(z + 0.5 * h * k1)
            k3 = fz(z + 0.5 * h * k2)
            k4 = fz(z + h * k3)
            z = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return z[:-1], z[-1]


# ------------------------------------------------------------------------------------------------ ideal converters
def b6_bits(a):
    """eight switching states, msb = phase a; +0.5 for the upper switch"""
    return [0.5 if a & 4 else -0.5, 0.5 if a & 2 else -0.5, 0.5 if a & 1 else -0.5]


def qc4(a):
    return [0.0, 1.0, -1.0, 0.0][a]


def ideal_output(act, motor, a):
    """normalised output voltages of the default converters without dead time"""
    if act == "Cont":
        a = np.atleast_1d(np.asarray(a, float))
        if motor in ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc"):
            return [float(v) for v in a]
        if motor == "EESM":
            return [0.5 * v for v in a[:3]] + [float(a[3])]
        return [0.5 * float(v) for v in a]
    if motor in ("PermExDc", "SeriesDc", "ShuntDc"):
        return [qc4(int(a))]
    if motor == "ExtExDc":
        return [qc4(int(a[0])), qc4(int(a[1]))]
    if motor == "EESM":
        return b6_bits(int(a[0])) + [qc4(int(a[1]))]
    if motor == "DFIM":
        return b6_bits(int(a[0])) + b6_bits(int(a[1]))
    return b6_bits(int(a))


def motor_input(m, x, u_out):
    """terminal voltages (converter outputs in volts) -> the vector u of Machine.ode; frozen over a step"""
    if m.motor in ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc"):
        return np.array(u_out)
    if m.motor in ("PMSM", "SynRM"):
        return park(u_out, x[2])
    if m.motor == "EESM":
        return np.r_[park(u_out[:3], x[3]), u_out[3]]
    if m.motor == "SCIM":
        return t23(u_out)
    return np.array([t23(u_out[:3]), rot(t23(u_out[3:]), x[4])])


# ------------------------------------------------------------------------------------------------ converters
class HalfBridge:
    """Finite two-quadrant converter: 0 both off, 1 upper on, 2 lower on."""

    def __init__(self):
        self.state = self.target = 0
        self.dead = False

    def command(self, a, ti):
        self.dead = bool(ti > 0 and a != 0 and self.state != 0 and a != self.state)
        self.target = a

    def output(self, i, phase):
        """phase: 'dead' or 'active'"""
        s = 0 if (self.dead and phase == "dead") else self.target
        self.state = s
        if s == 0:
            return 1.0 if i < 0 else 0.0
        return 1.0 if s == 1 else 0.0


class Conv:
    """Reference model of the converters.  desc: dict(kind, subs?)"""

    def __init__(self, desc, tau, ti):
        self.kind, self.tau, self.ti = desc["kind"], tau, ti
        k = self.kind
        if k in ("FM", "CM"):
            self.subs = [Conv(d, tau, ti) for d in desc["subs"]]
        else:
            self.hb = [HalfBridge() for _ in range({"F2": 1, "F4": 2, "FB6": 3}.get(k, 0))]
        self.n_i = sum(s.n_i for s in self.subs) if k in ("FM", "CM") else (3 if k.endswith("B6") else 1)

    def set_tau(self, tau):
        self.tau = tau
        for s in getattr(self, "subs", []):
            s.set_tau(tau)

    def command(self, a):
        k = self.kind
        if k == "FM":
            for s, x in zip(self.subs, a):
                s.command(int(x))
        elif k == "CM":
            p = 0
            for s in self.subs:
                s.command(a[p : p + s.n_i])
                p += s.n_i
        elif k == "F1":
            self.a = int(a)
        elif k == "F2":
            self.hb[0].command(int(a), self.ti)
        elif k == "F4":
            self.hb[0].command([1, 1, 2, 2][a], self.ti)
            self.hb[1].command([1, 2, 1, 2][a], self.ti)
        elif k == "FB6":
            for n, h in enumerate(self.hb):
                h.command(1 if (a >> (2 - n)) & 1 else 2, self.ti)
        elif k in ("C1", "C2"):
            self.d = [min(max(float(a[0]), 0.0), 1.0)]
        elif k == "C4":
            d = min(max(0.5 * (float(a[0]) + 1), 0.0), 1.0)
            self.d = [d, 1 - d]
        elif k == "CB6":
            self.d = [min(max(0.5 * (float(x) + 1), 0.0), 1.0) for x in a]

    @property
    def has_dead(self):
        if self.kind in ("FM", "CM"):
            return any(s.has_dead for s in self.subs)
        return any(h.dead for h in self.hb)

    def output(self, i, phase, pinned4=False):
        """pinned4: the second half bridge of the continuous 4QC sees the same current direction (known finding)"""
        k = self.kind
        if k in ("FM", "CM"):
            out, p = [], 0
            for s in self.subs:
                out += s.output(i[p : p + s.n_i], phase, pinned4)
                p += s.n_i
            return out
        if k == "F1":
            return [float(self.a) if i[0] >= 0 else 1.0]
        if k == "F2":
            return [self.hb[0].output(i[0], phase)]
        if k == "F4":
            return [self.hb[0].output(i[0], phase) - self.hb[1].output(-i[0], phase)]
        if k == "FB6":
            return [h.output(x, phase) - 0.5 for h, x in zip(self.hb, i)]
        r = self.ti / self.tau
        avg = lambda d, x: min(max(d - (x > 0) * r + (x < 0) * r, 0.0), 1.0)
        if k == "C1":
            return [self.d[0] if i[0] >= 0 else 1.0]
        if k == "C2":
            return [avg(self.d[0], i[0])]
        if k == "C4":
            return [avg(self.d[0], i[0]) - avg(self.d[1], i[0] if pinned4 else -i[0])]
        return [avg(d, x) - 0.5 for d, x in zip(self.d, i)]

    def reset(self):
        """output voltages after the reset"""
        k = self.kind
        if k in ("FM", "CM"):
            return [v for s in self.subs for v in s.reset()]
        for h in self.hb:
            h.state = h.target = 0
            h.dead = False
        return [-0.5] * 3 if k.endswith("B6") else [0.0]


def default_converter(act, motor):
    one, three = ("F4", "FB6") if act == "Finite" else ("C4", "CB6")
    multi = "FM" if act == "Finite" else "CM"
    if motor in ("PermExDc", "SeriesDc", "ShuntDc"):
        return dict(kind=one)
    if motor == "ExtExDc":
        return dict(kind=multi, subs=[dict(kind=one), dict(kind=one)])
    if motor == "EESM":
        return dict(kind=multi, subs=[dict(kind=three), dict(kind=one)])
    if motor == "DFIM":
        return dict(kind=multi, subs=[dict(kind=three), dict(kind=three)])
    return dict(kind=three)


def terminal_currents(m, x):
    """currents flowing from the converter into the machine"""
    k = m.motor
    if k in ("PermExDc", "SeriesDc"):
        return [x[0]]
    if k == "ShuntDc":
        return [x[0] + x[1]]
    if k == "ExtExDc":
        return [x[0], x[1]]
    if k in ("PMSM", "SynRM"):
        return list(inv_park(x[:2], x[2]))
    if k == "EESM":
        return list(inv_park(x[:2], x[3])) + [x[2]]
    if k == "SCIM":
        return list(t32(x[:2]))
    i_r = (x[2:4] - m.lm * x[:2]) / m.lr
    return list(t32(x[:2])) + list(t32(rot(i_r, -x[4])))
