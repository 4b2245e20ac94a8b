"""Synthetic cycler runs with a known ground truth.

`make_run(rng, ...)` simulates a battery test record by record and returns a
`Run` holding the raw table (canonical columns) together with the truth the
oracles need: which cycles are diagnostic (and of what type), whether each
(cycle, step) charges, discharges or rests, and where pauses were injected.
All numbers derive from `rng`.
"""
import datetime as dt

import numpy as np
import pandas as pd

T0 = dt.datetime(2019, 3, 1, 12, 0, 0)


class Run:
    def __init__(self):
        self.rows = []
        self.steps = {}       # (cycle, step_index) -> 'charge' | 'discharge' | 'rest'
        self.order = []       # cycles in order of appearance
        self.diag = {}        # type -> [cycles]
        self.pauses = {}      # cycle -> max injected gap
        self.cv = {}          # cycle -> (t_start, t_end, current_end, q_start, q_end)

    def frame(self):
        return pd.DataFrame(self.rows)

    @property
    def diag_cycles(self):
        return {c for v in self.diag.values() for c in v}


def iso(t):
    """UTC timestamp string the way ingestion writes them."""
    return t.strftime("%Y-%m-%dT%H:%M:%S") + "+00:00"


class Cell:
    """Integrates charge and energy; voltage is a smooth monotone function of SOC + IR."""

    def __init__(self, rng, run, q_nom=1.1, v_lo=2.0, v_hi=3.6, temp=True, ir=True, wf_cols=False,
                 cumulative=False, noise=0.0, frac_seconds=False):
        self.rng, self.run = rng, run
        self.q_nom, self.v_lo, self.v_hi = q_nom, v_lo, v_hi
        self.soc = 0.05
        self.t = 0.0
        self.clock = T0 + dt.timedelta(seconds=rng.randrange(0, 86400 * 300))
        self.clock_off = 0.0
        self.temp, self.ir, self.wf_cols = temp, ir, wf_cols
        self.cumulative = cumulative
        self.noise = noise
        self.frac = frac_seconds
        self.qc = self.qd = self.ec = self.ed = 0.0
        self.T = 25.0 + rng.random() * 10
        self.r = 0.02 + rng.random() * 0.02
        self.point = 0

    def ocv(self, soc):
        return self.v_lo + (self.v_hi - self.v_lo) * (0.15 + 0.8 * soc ** 0.5 if soc > 0 else 0.15)

    def new_cycle(self):
        if not self.cumulative:
            self.qc = self.qd = self.ec = self.ed = 0.0

    def record(self, cycle, step, i, v, step_time, wf=None):
        self.point += 1
        now = self.clock + dt.timedelta(seconds=self.t + self.clock_off)
        if not self.frac:
            now = now.replace(microsecond=0)
        row = {
            "data_point": self.point,
            "test_time": self.t,
            "cycle_index": cycle,
            "step_index": step,
            "step_time": step_time,
            "current": i,
            "voltage": v,
            "charge_capacity": self.qc,
            "discharge_capacity": self.qd,
            "charge_energy": self.ec,
            "discharge_energy": self.ed,
            "date_time_iso": iso(now),
        }
        if self.ir:
            row["internal_resistance"] = (
                self.r if self.ir is True or self.rng.random() < 0.5 else np.nan
            )
        if self.temp:
            row["temperature"] = self.T + self.rng.uniform(-0.4, 0.4)
        if self.wf_cols:
            row["_wf_chg_cap"] = wf if wf and wf > 0 else np.nan
            row["_wf_dis_cap"] = -wf if wf and wf < 0 else np.nan
        self.run.rows.append(row)

    def advance(self, i, v, d):
        self.t += d
        dq = i * d / 3600.0
        if i > 0:
            self.qc += dq
            self.ec += dq * v
        elif i < 0:
            self.qd -= dq
            self.ed -= dq * v
        self.soc = min(1.0, max(0.0, self.soc + dq / self.q_nom))

    def step(self, cycle, step, kind, n, crate=1.0, until=None, d=None, pause=None, waveform=False):
        """One step of n records.  Returns (first,last) record positions."""
        rng = self.rng
        i0 = {"charge": 1.0, "discharge": -1.0, "rest": 0.0, "cv": 1.0}[kind] * crate * self.q_nom
        truth = {"charge": "charge", "cv": "charge", "discharge": "discharge", "rest": "rest"}[kind]
        key = (cycle, step)
        prev = self.run.steps.get(key)
        if prev is not None and prev != truth:
            # a step index means one thing inside a cycle
            raise AssertionError("generator reused a step index with another meaning")
        self.run.steps[key] = truth
        if cycle not in self.run.order:
            self.run.order.append(cycle)
        st = 0.0
        if kind == "rest":
            d = d or rng.uniform(30, 400)
        elif d is None:
            span = (until - self.soc) if kind != "discharge" else (self.soc - until)
            span = max(span, 0.01)
            d = span * self.q_nom / abs(i0) * 3600.0 / max(n - 1, 1)
        start = len(self.run.rows)
        first_q, first_t = None, None
        cur = i0
        for k in range(n):
            if kind == "cv":
                cur = i0 * (0.85 ** k)
                v = self.v_hi
            else:
                cur = i0
                if waveform and k:
                    cur = i0 * rng.uniform(0.2, 1.8)
                v = self.ocv(self.soc) + cur * self.r
            if self.noise:
                v += rng.uniform(-self.noise, self.noise)
            if pause is not None and k == n // 2 and k > 0:
                self.clock_off += pause
                self.run.pauses[cycle] = max(self.run.pauses.get(cycle, 0), pause)
            self.record(cycle, step, cur, v, st, wf=(1 if cur > 0 else -1) * (k + 1) if waveform else None)
            if k < n - 1 or kind != "rest":
                dd = d * (rng.uniform(0.6, 1.4) if n > 3 else 1.0)
                if k < n - 1:
                    self.advance(cur, v, dd)
                    st += dd
                else:
                    self.t += min(1.0, dd)
        if kind == "rest":
            self.t += 1.0
        return start, len(self.run.rows) - 1


def make_run(rng, n_cycles=6, first_cycle=None, gaps=None, diag=None, waveform=False, temp=None, ir=None,
             pauses=True, rest=None, resolution_pts=None, multi_charge=None, incomplete_last=None,
             cumulative=False, short_steps=True, noise=None, q_nom=None, fade=None, frac_seconds=None,
             cv_only=0.06, single_row_steps=True):
    """A whole test.  `diag` maps cycle position -> type name."""
    run = Run()
    pick = rng.random
    c = rng.choice([0, 1, 1, 2, 7]) if first_cycle is None else first_cycle
    gaps = (pick() < 0.35) if gaps is None else gaps
    temp = (pick() < 0.8) if temp is None else temp
    ir = rng.choice([True, True, "some", False]) if ir is None else ir
    q = q_nom or rng.choice([1.1, 1.1, 4.7, 0.25])
    # voltage windows: cells whose cycles span 3.3 V and cells which do not
    v_lo, v_hi = rng.choice([(2.0, 3.6), (2.0, 3.6), (2.7, 4.2), (3.4, 4.3)])
    noise = rng.choice([0.0, 0.0, 2e-4]) if noise is None else noise
    cell = Cell(rng, run, q_nom=q, v_lo=v_lo, v_hi=v_hi, temp=temp, ir=ir, wf_cols=waveform,
                cumulative=cumulative, noise=noise,
                frac_seconds=(pick() < 0.3) if frac_seconds is None else frac_seconds)
    multi = (pick() < 0.5) if multi_charge is None else multi_charge
    with_rest = (pick() < 0.6) if rest is None else rest
    incomplete = rng.choice(["full", "full", "nodchg", "half"]) if incomplete_last is None else incomplete_last
    pts = resolution_pts or rng.choice([8, 15, 40])
    fade = fade if fade is not None else rng.choice([0.0, 0.004])
    step_base = rng.choice([1, 1, 3, 10])
    for k in range(n_cycles):
        cell.new_cycle()
        dtype = (diag or {}).get(k)
        if dtype:
            run.diag.setdefault(dtype, []).append(c)
        last = k == n_cycles - 1
        pz = None
        if pauses and pick() < 0.15:
            pz = rng.choice([1800, 3599.0, 3700, 7200, 86400])
        top = max(0.3, 0.95 - fade * k)
        s = step_base if not dtype else step_base + 20
        if dtype and "hppc" in dtype:
            cell.step(c, s, "charge", pts, crate=0.5, until=top, pause=pz)
            for _ in range(rng.choice([2, 3])):
                cell.step(c, s + 1, "rest", max(3, pts // 3), d=300.0)
                cell.step(c, s + 2, "discharge", rng.choice([3, 6]), crate=1.0, d=8.0)
                cell.step(c, s + 3, "rest", 4, d=9.0)
                cell.step(c, s + 4, "charge", rng.choice([3, 6]), crate=0.75, d=8.0)
                cell.step(c, s + 5, "discharge", pts, crate=0.5, until=max(0.02, cell.soc - 0.2))
            cell.step(c, s + 6, "discharge", pts, crate=0.5, until=0.02)
        elif dtype:
            cell.step(c, s, "charge", pts, crate=0.3, until=top, pause=pz)
            if pick() < 0.5:
                # CCCV programmed as one step
                cell.step(c, s, "cv", max(4, pts // 3), crate=0.3, d=40.0)
            elif pick() < 0.6:
                cell.step(c, s + 1, "cv", max(4, pts // 3), crate=0.3, d=40.0)
            if with_rest:
                cell.step(c, s + 2, "rest", rng.choice([2, 5]))
            cell.step(c, s + 3, "discharge", pts, crate=0.3, until=0.03)
        else:
            if with_rest and pick() < 0.3:
                cell.step(c, s + 9, "rest", rng.choice([1, 2, 5]) if single_row_steps else 3)
            n1 = pts
            if short_steps and pick() < 0.08:
                n1 = 2
            if cv_only and pick() < cv_only:
                # charge that is a constant-voltage hold from its first record
                cell.step(c, s + 2, "cv", rng.choice([5, 9]), crate=1.0, d=rng.uniform(60, 200))
            elif multi:
                mid = cell.soc + (top - cell.soc) * rng.uniform(0.3, 0.7)
                cell.step(c, s, "charge", n1, crate=1.5, until=mid, pause=pz)
                cell.step(c, s + 1, "charge", pts, crate=0.8, until=top)
            else:
                cell.step(c, s, "charge", n1, crate=1.0, until=top, pause=pz)
            if (c, s + 2) not in run.steps and pick() < 0.75:
                a, b = cell.step(c, s + 2, "cv", rng.choice([5, 9]), crate=0.8, d=rng.uniform(20, 90))
            if with_rest:
                cell.step(c, s + 3, "rest", rng.choice([2, 4]))
            if last and incomplete == "nodchg":
                pass
            else:
                until = 0.03 if not (last and incomplete == "half") else max(0.03, cell.soc - 0.3)
                n2 = pts
                if short_steps and pick() < 0.08:
                    n2 = 2
                cell.step(c, s + 4, "discharge", n2, crate=1.0, until=until,
                          waveform=waveform and pick() < 0.7)
            if with_rest and pick() < 0.5:
                cell.step(c, s + 5, "rest", rng.choice([1, 3]) if single_row_steps else 3)
        c += 1 + (rng.randrange(1, 4) if gaps and pick() < 0.4 else 0)
    return run


def datapath_class(name):
    from beep.structure.arbin import ArbinDatapath
    from beep.structure.maccor import MaccorDatapath
    from beep.structure.battery_archive import BatteryArchiveDatapath
    from beep.structure.neware import NewareDatapath
    from beep.structure.indigo import IndigoDatapath
    from beep.structure.biologic import BiologicDatapath
    from beep.structure.novonix import NovonixDatapath
    return {
        "biologic": BiologicDatapath,
        "novonix": NovonixDatapath,
        "arbin": ArbinDatapath,
        "maccor": MaccorDatapath,
        "battery_archive": BatteryArchiveDatapath,
        "neware": NewareDatapath,
        "indigo": IndigoDatapath,
    }[name]


def same(a, b, rel=2e-6, ab=1e-9):
    """Numeric agreement (NaN equals NaN)."""
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b or (a is None and b is None)
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))
