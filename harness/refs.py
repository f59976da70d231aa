"""Reference models of the virtual source - written from the documented behavior.

Units: uV, nA, fW. All values are floats (or exact integers). Whenever a comparison is decided
by less than the float-noise, the reference raises ``Borderline`` and the history is cut there.
"""

from __future__ import annotations

import math
import random
from collections.abc import Callable
from typing import Any

SPS = 100_000
STORAGE, BOOST, BUCK, LOG_MID, FEEDBACK = 1, 2, 4, 8, 16


class Borderline(Exception):
    """Result depends on rounding-noise."""


def less(a: float, b: float) -> bool:
    """a < b, but undecided within float-noise (equality is exact)."""
    if a != b and abs(a - b) <= 1e-6 + 1e-10 * max(abs(a), abs(b)):
        raise Borderline
    return a < b


class Noise:
    """Rounding-noise of another - equally valid - order of float-operations."""

    def __init__(self, seed: int | None = None) -> None:
        self.rnd = None if seed is None else random.Random(seed)

    def __call__(self, val: float) -> float:
        if self.rnd is None or val == 0:
            return val
        if abs(val) < 2**52 and val == math.floor(val):
            return val  # computed exact
        return val * (1 + self.rnd.choice((-1e-13, 1e-13)))


class Ensemble:
    """Reference with slightly disturbed copies.

    Some settings amplify rounding-noise (i.e. tiny capacitors). The spread of the copies widens the tolerance
    and copies that disagree about a state tell that the result is undecidable.
    """

    def __init__(self, make: Callable[[Noise], Any], copies: int = 2) -> None:
        self.main = make(Noise())
        self.copies = [make(Noise(seed)) for seed in range(copies)]
        self.spread = 0.0

    def __getattr__(self, name: str) -> Any:
        return getattr(self.main, name)

    def preset(self, name: str, val: float) -> None:
        for ref in (self.main, *self.copies):
            setattr(ref, name, val)

    def call(self, name: str, *args: Any) -> Any:
        want = getattr(self.main, name)(*args)
        others = [getattr(ref, name)(*args) for ref in self.copies]
        if isinstance(want, (tuple, bool)):
            if any(want != other for other in others):
                raise Borderline
            return want
        self.widen(want, others)
        return want

    def get(self, name: str) -> float:
        want = getattr(self.main, name)
        self.widen(want, [getattr(ref, name) for ref in self.copies])
        return want

    def widen(self, want: float, others: list) -> None:
        spread = max(abs(want - other) for other in others)
        if spread > 0.1 + 1e-7 * abs(want):
            raise Borderline
        self.spread = 4 * spread


def floor_exact(val: float) -> int:
    out = math.floor(val)
    if val != out and min(val - out, out + 1 - val) < 1e-9 * max(1.0, abs(val)):
        raise Borderline
    return out


class AdcRef:
    """Current sense: noise around zero must not bias the mean."""

    def __init__(self, gain: float, offset: float) -> None:
        self.gain = gain
        self.offset = offset
        self.debt = 0.0

    def nA(self, raw: int) -> float:
        cur = (raw * self.gain + self.offset) * 1e9
        if self.offset >= 0:
            return cur
        # negative readings are collected & subtracted from the following ones
        if less(self.debt, cur):
            out, self.debt = cur - self.debt, 0.0
            return out
        self.debt = min(self.debt - cur, 60_000.0)
        return 0.0


class ConverterRef:
    def __init__(self, cfg: dict, adc: AdcRef, dac: tuple[float, float], noise: Noise | None = None) -> None:
        self.cfg = cfg
        self.noise = noise or Noise()
        self.adc = adc
        self.dac = dac
        mode = cfg["converter_mode"]
        self.storage, self.boost, self.buck, self.log_mid, self.feedback = (
            bool(mode & bit) for bit in (STORAGE, BOOST, BUCK, LOG_MID, FEEDBACK)
        )
        self.r_kOhm = cfg["R_input_kOhm_n22"] / 2**22
        self.dV_per_nA = cfg["Constant_us_per_nF_n28"] / 2**28
        self.v_mid = float(cfg["V_intermediate_init_uV"])
        self.v_request = float(cfg["V_intermediate_init_uV"])
        self.v_out = float(cfg["V_output_uV"])
        self.p_in = self.p_out = 0.0
        self.startup = cfg["interval_startup_delay_drain_n"]
        self.since_check: int | None = None  # first sample always checks
        self.connected = False
        self.good = True
        self.v_enable = max(cfg["V_enable_output_threshold_uV"], cfg["dV_enable_output_uV"])

    def raw_out(self, v_uV: float) -> float:
        """Exact DAC-value before rounding."""
        return min(max((v_uV * 1e-6 - self.dac[1]) / self.dac[0], 0.0), 65535.0)

    def eta_in(self, v: float, i: float) -> float:
        cfg = self.cfg
        pos_v = min(11, floor_exact(v / 2 ** cfg["LUT_input_V_min_log2_uV"]))
        steps = floor_exact(i / 2 ** cfg["LUT_input_I_min_log2_nA"])
        pos_i = min(11, max(0, steps.bit_length() - 1))
        return cfg["LUT_inp_efficiency_n8"][pos_v][pos_i] / 256

    def inv_eta_out(self, i: float) -> float:
        steps = floor_exact(max(i, 0) / 2 ** self.cfg["LUT_output_I_min_log2_nA"])
        return self.cfg["LUT_out_inv_efficiency_n4"][min(11, max(0, steps.bit_length() - 1))] / 16

    def inp(self, v: float, i: float) -> float:
        cfg = self.cfg
        v = max(0, max(0, v) - cfg["V_input_drop_uV"])
        v = min(v, cfg["V_input_max_uV"])
        i = min(max(0, i), cfg["I_input_max_nA"])
        if self.boost:
            usable = v if v >= cfg["V_input_boost_threshold_uV"] else 0
            self.p_in = self.noise(self.eta_in(usable, i) * usable * i)
        elif self.storage:
            v_res = i * self.r_kOhm
            below = less(v, self.v_mid)
            if self.feedback:
                self.v_request = self.v_mid + v_res + cfg["V_input_drop_uV"]
                # operating point is shifted until it fits
                lifted = less(0 if below else v - self.v_mid, v_res)
                usable = self.v_mid if lifted else v - v_res
            else:
                # diode blocks below the voltage of the cap
                usable = 0 if below else max(self.v_mid, v - v_res)
            self.p_in = self.noise(usable * i)
        else:
            self.v_mid = float(v)
            self.p_in = 0.0
        return self.p_in

    def out(self, raw: int) -> float:
        i_out = self.adc.nA(min(max(raw, 0), 2**18 - 1))
        eta = self.inv_eta_out(i_out) if self.buck else 1.0
        self.p_out = self.noise(eta * self.v_out * i_out + self.v_mid * self.cfg["I_intermediate_leak_nA"])
        if self.startup > 0:
            self.startup -= 1
            self.p_out = 0.0
        return self.p_out

    def cap(self) -> float:
        if self.storage:
            self.v_mid += self.noise((self.p_in - self.p_out) / max(1.0, self.v_mid) * self.dV_per_nA)
        self.v_mid = max(1.0, min(self.v_mid, self.cfg["V_intermediate_max_uV"]))
        return self.v_mid

    def states(self) -> float:
        cfg = self.cfg
        v_now = self.v_mid
        if self.since_check is None:
            check = True
        else:
            self.since_check += 1
            check = self.since_check >= cfg["interval_check_thresholds_n"]
        if check:
            self.since_check = 0
            if self.connected:
                self.connected = not less(v_now, cfg["V_disable_output_threshold_uV"])
            elif not less(v_now, self.v_enable):
                self.connected = True
                self.v_mid -= cfg["dV_enable_output_uV"]
        if check or cfg["immediate_pwr_good_signal"]:
            if self.good:
                self.good = less(cfg["V_pwr_good_disable_threshold_uV"], v_now)
            elif not less(v_now, cfg["V_pwr_good_enable_threshold_uV"]):
                self.good = self.connected
        if not self.connected and self.startup == 0:
            self.v_out = 0.0
            return 0.0
        drop = cfg["V_buck_drop_uV"]
        if self.buck and less(cfg["V_output_uV"] + drop, self.v_mid):
            self.v_out = float(cfg["V_output_uV"])
        else:
            self.v_out = max(0.0, self.v_mid - drop)
        return self.raw_out(self.v_out)

    def flags(self) -> tuple[bool, bool, bool]:
        """Output connected, power-good, low output-voltage."""
        return self.connected, self.good, less(self.v_out, self.cfg["V_output_log_gpio_threshold_uV"])

    def raw_mid(self) -> float:
        return self.raw_out(self.v_mid)


class HarvesterRef:
    """Operating point that an emulated harvester finds in a stream of iv-curves."""

    def __init__(self, cfg: dict) -> None:
        self.cfg = cfg
        win, interval = cfg["window_size"], cfg["interval_n"]
        self.win = win
        self.algo = next(
            (n for n, v in (("opt", 2**14), ("po", 2**13), ("voc", 2**12), ("cv", 2**8)) if cfg["algorithm"] >= v), "pass"
        )
        self.target = cfg["voltage_uV"] + 1
        self.step = cfg["voltage_step_uV"]
        # the first change of the operating point happens after two curves
        self.tick = interval - 2 * win if interval > 2 * win else 2**30
        self.rising = bool(cfg["hrv_mode"] & 2)
        self.extrapolate = bool(cfg["hrv_mode"] & 4)
        self.hold = (0, 0)
        self.last = (0, 0)
        self.last_below: Any = 0
        self.delta = (0, 0)
        v_max = cfg["voltage_max_uV"]
        self.best = [(v_max, 0), (v_max, 0)] if self.algo == "voc" else [(0, 0, 0, 0), (0, 0, 0, 0)]
        self.po_step = self.step
        self.po_power = 0

    def sample(self, v: int, i: int) -> tuple[int, int]:
        if self.win <= 1 or self.algo == "pass":
            return v, i
        return getattr(self, "run_" + self.algo)(v, i)

    def run_cv(self, v: int, i: int) -> tuple[int, int]:
        near = 4 * self.step
        dv, di = v - self.last[0], i - self.last[1]
        crossed = (v < self.target) != self.last_below
        if crossed and abs(dv) < near:
            # take the sample next to the target voltage
            d_now, d_last = abs(v - self.target), abs(self.last[0] - self.target)
            if min(d_now, d_last) < near:
                self.hold = (v, i) if d_now < d_last else self.last
                self.delta = (dv, di)
        elif self.extrapolate:
            v_h, i_h = self.hold
            v_d, i_d = self.delta
            if (v_h < self.target) == (v_d > 0):
                self.hold = (v_h + v_d, i_h + i_d)
            else:
                self.hold = (max(v_h - v_d, 0), max(i_h - i_d, 0))
        self.last_below = v < self.target
        self.last = (v, i)
        return max(0, self.hold[0]), max(0, self.hold[1])

    def advance(self) -> None:
        self.tick += 1
        if self.tick >= self.cfg["interval_n"]:
            self.tick = 0

    def run_voc(self, v: int, i: int) -> tuple[int, int]:
        cfg = self.cfg
        self.advance()
        (now, age), (nxt, age_nxt) = self.best
        age, age_nxt = age + 1, age_nxt + 1
        if i < cfg["current_limit_nA"] and max(1000, cfg["voltage_min_uV"]) <= v <= cfg["voltage_max_uV"] and v < nxt:
            nxt, age_nxt = v, 0
        if age > 2 * self.win or nxt <= now:
            now, age = nxt, age_nxt
            nxt, age_nxt = cfg["voltage_max_uV"], 0
        self.best = [(now, age), (nxt, age_nxt)]
        out = self.run_cv(v, i)
        if self.tick < cfg["duration_n"]:
            self.target = now
        elif self.tick == cfg["duration_n"]:
            self.target = now * cfg["setpoint_n8"] // 256
        return out

    def run_po(self, v: int, i: int) -> tuple[int, int]:
        cfg = self.cfg
        self.advance()
        out = self.run_cv(v, i)
        if self.tick == 0:
            power = out[0] * out[1]
            if power > self.po_power:
                self.target += self.po_step if self.rising else -self.po_step
                self.po_step *= 2
            else:
                self.po_step = self.step
                if power <= 0 < self.target:
                    self.rising = True
                    self.target -= 4 * self.step
                else:
                    self.rising = not self.rising
                    self.target += self.step if self.rising else -self.step
            self.po_power = power
            for lim, up in ((cfg["voltage_max_uV"], False), (cfg["voltage_min_uV"], True), (self.step, True)):
                if (self.target <= lim) if up else (self.target >= lim):
                    self.target, self.rising, self.po_step = lim, up, self.step
        return out

    def run_opt(self, v: int, i: int) -> tuple[int, int]:
        (p_now, v_now, i_now, age), (p_nxt, v_nxt, i_nxt, age_nxt) = self.best
        age, age_nxt = age + 1, age_nxt + 1
        if v * i >= p_nxt and self.cfg["voltage_min_uV"] <= v <= self.cfg["voltage_max_uV"]:
            p_nxt, v_nxt, i_nxt, age_nxt = v * i, v, i, 0
        if age > 2 * self.win or p_nxt >= p_now:
            p_now, v_now, i_now, age = p_nxt, v_nxt, i_nxt, age_nxt
            p_nxt = v_nxt = i_nxt = age_nxt = 0
        self.best = [(p_now, v_now, i_now, age), (p_nxt, v_nxt, i_nxt, age_nxt)]
        return v_now, i_now


class SourceRef:
    """Harvester + converter + observer-cape."""

    def __init__(self, cnv: dict, hrv: dict, adc: tuple[float, float], dac: tuple[float, float], noise: Noise) -> None:
        self.hrv = HarvesterRef(hrv)
        self.adc = adc
        self.cnv = ConverterRef(cnv, AdcRef(*adc), dac, noise)
        self.w_in = self.w_out = 0.0

    def flags(self) -> tuple[bool, bool]:
        """Output connected, power-good."""
        return self.cnv.connected, self.cnv.good

    def step(self, v: int, i: int, i_out_nA: float) -> float:
        """Exact output-voltage before rounding to int."""
        v_h, i_h = self.hrv.sample(v, i)
        self.w_in += self.cnv.inp(v_h, i_h)
        raw = max(0.0, (i_out_nA * 1e-9 - self.adc[1]) / self.adc[0])
        if abs(raw - math.floor(raw) - 0.5) < 1e-9 * max(1.0, raw):
            raise Borderline
        self.w_out += self.cnv.out(round(raw))
        v_mid = self.cnv.cap()
        dac = self.cnv.states()
        if self.cnv.feedback:
            self.hrv.target = self.cnv.v_request
        if self.cnv.log_mid:
            return v_mid
        if abs(dac - math.floor(dac) - 0.5) < 1e-9 * max(1.0, dac):
            raise Borderline
        # unsettled target is switched off
        raw_out = round(dac) if (self.cnv.connected or self.cnv.startup > 0) else 0
        return (raw_out * self.cnv.dac[0] + self.cnv.dac[1]) * 1e6
