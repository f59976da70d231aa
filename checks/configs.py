"""P13-P14: settings of harvester and converter as handed to the realtime unit."""

from __future__ import annotations

import copy

from hypothesis import strategies as st

from harness import models as gen
from harness.core import facet
from harness.util import floats
from harness.util import log_floats
from harness.util import silence
from shepherd_core import CalibrationHarvester
from shepherd_core.data_models import EnergyDType
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig

ALGO = {
    "neutral": 2**0, "isc_voc": 2**3, "ivcurve": 2**4, "cv": 2**8,
    "mppt_voc": 2**12, "mppt_po": 2**13, "mppt_opt": 2**14,
}
RECORDED = {"isc_voc": "isc_voc", "ivcurve": "ivcurve"}
U32 = 2**32


def scaled(ctx, got, want: float, what: str, tol: float = 0.5) -> None:
    """Rounded to the nearest integer."""
    ctx.check(isinstance(got, int) and not isinstance(got, bool) and 0 <= got < U32, f"{what}: {got!r} is no u32")
    ctx.check(abs(got - want) <= tol + 1e-6 + 1e-9 * abs(want), f"{what}: got {got}, expected {want}")


def hrv_defaults(kw: dict) -> dict:
    out = {
        "samples_n": 8, "voltage_mV": 2500, "voltage_min_mV": 0, "voltage_max_mV": 5000, "current_limit_uA": 50_000,
        "setpoint_n": 0.7, "interval_ms": 100, "duration_ms": 0.1, "rising": True,
        "enable_linear_extrapolation": True, "wait_cycles": 1, "voltage_step_mV": None,
    }
    out.update(kw)
    return out


def hrv_reference(kw: dict, *, for_emu: bool, dtype: str, window: int | None, step_V: float | None) -> dict:
    """Expected settings from the documented units - independent of the code."""
    par = hrv_defaults(kw)
    cal = CalibrationHarvester()
    lim_uA = max(par["current_limit_uA"], 1e6 * 4 * cal.adc_C_Hrv.gain)
    step = par["voltage_step_mV"]
    if step is None:
        step = (par["voltage_max_mV"] - par["voltage_min_mV"]) / (par["samples_n"] - 1)
    step = max(step, 1e3 * 4 * cal.dac_V_Hrv.gain)
    if step_V is not None:
        step = 1e3 * step_V
    step_len_ms = (1 + par["wait_cycles"]) / 100
    t_min = step_len_ms * (par["samples_n"] if for_emu else 1)
    interval = min(max(par["interval_ms"], t_min), 1e6)
    duration = min(max(par["duration_ms"], t_min), interval)
    if window is None:
        if not for_emu:
            window = par["samples_n"]
        else:
            window = {"ivcurve": par["samples_n"] * (1 + par["wait_cycles"]), "ivsample": 0}[dtype]
    return {
        "algorithm": ALGO[par["algorithm"]],
        "hrv_mode": int(for_emu) + 2 * par["rising"] + 4 * par["enable_linear_extrapolation"],
        "window_size": window,
        "voltage_uV": par["voltage_mV"] * 1e3,
        "voltage_min_uV": par["voltage_min_mV"] * 1e3,
        "voltage_max_uV": par["voltage_max_mV"] * 1e3,
        "voltage_step_uV": step * 1e3,
        "current_limit_nA": lim_uA * 1e3,
        "setpoint_n8": min(255, par["setpoint_n"] * 256),
        "interval_n": interval * 100,
        "duration_n": duration * 100,
        "wait_cycles_n": par["wait_cycles"],
    }


@facet(
    "P13",
    "harvester_settings",
    lambda: st.fixed_dictionaries(
        {
            "hrv": gen.vhrv(),
            "for_emu": st.booleans(),
            "dtype": st.sampled_from(["ivsample", "ivcurve", "isc_voc"]),
            "as_str": st.booleans(),
            "window": st.one_of(st.none(), st.integers(0, 10**5)),
            "step_V": st.one_of(st.none(), log_floats(-4, 0.6)),
        }
    ),
    quick=3000,
    thorough=80000,
    shards=2,
    rule="generated harvesters and recording properties: every setting equals the documented scaling (uV, nA, samples, 1/256), timings respect window and "
    "step length, illegal use (harvesting nothing, emulation with a recording algorithm, missing step / window) is refused; non-trivial: accepted with >= 4 own parameters",
)
def p13_settings(case, ctx):
    kw = case["hrv"]
    with silence():
        hrv = VirtualHarvesterConfig(**copy.deepcopy(kw))
    before = hrv.model_dump()
    algo = kw["algorithm"]
    emu, dtype = case["for_emu"], case["dtype"]
    ctx.eq(hrv.get_datatype(), RECORDED.get(algo, "ivsample"), "datatype of harvester")
    illegal = (
        (emu and algo in RECORDED)
        or (not emu and algo == "neutral")
        or (emu and dtype == "isc_voc")
        or (emu and dtype == "ivcurve" and (case["step_V"] is None or case["window"] is None))
    )
    arg = dtype if case["as_str"] else EnergyDType(dtype)

    def make():
        with silence():
            return HarvesterPRUConfig.from_vhrv(
                hrv, dtype_in=arg, window_size=case["window"], voltage_step_V=case["step_V"], for_emu=emu
            )

    if illegal:
        ctx.label("illegal")
        ctx.raises(make, f"{algo} with emu={emu}, {dtype}", (ValueError, NotImplementedError))
        return
    got = make().model_dump()
    want = hrv_reference(kw, for_emu=emu, dtype=dtype, window=case["window"], step_V=case["step_V"])
    ctx.eq(set(got), set(want), "names of settings")
    for key, val in want.items():
        if key in {"algorithm", "hrv_mode", "window_size", "wait_cycles_n"}:
            ctx.eq(got[key], val, key)
        else:
            scaled(ctx, got[key], val, key)
    ctx.check(got["duration_n"] <= got["interval_n"], "measurement is longer than its interval")
    ctx.check(got["interval_n"] >= 1 and got["duration_n"] >= 1, "empty interval")
    if emu:
        steps = hrv.samples_n * (1 + hrv.wait_cycles)
        ctx.check(got["interval_n"] >= steps or got["interval_n"] == 10**8, "interval is shorter than one curve")
    # length of one curve in samples, for its recording & emulation
    par = hrv_defaults(kw)
    own = {"ivcurve": par["samples_n"], "isc_voc": 2, "ivsample": 0}
    for kind, num in own.items():
        ctx.eq(hrv.calc_window_size(EnergyDType(kind), for_emu=True), num * (1 + par["wait_cycles"]), f"window for {kind}")
    ctx.eq(hrv.calc_window_size(for_emu=True), own[RECORDED.get(algo, "ivsample")] * (1 + par["wait_cycles"]), "window for own datatype")
    ctx.eq(hrv.calc_window_size(for_emu=False), par["samples_n"], "window for recording")
    ctx.eq(hrv.model_dump(), before, "harvester after conversion")
    ctx.nontrivial(len(kw) >= 4)


@facet(
    "P13",
    "harvester_limits",
    lambda: st.fixed_dictionaries(
        {
            "hrv": gen.vhrv(),
            "fault": st.sampled_from(
                [
                    ("samples_n", 7), ("samples_n", 2001), ("samples_n", 0), ("voltage_mV", -1), ("voltage_mV", 5001),
                    ("voltage_min_mV", -0.1), ("voltage_max_mV", 5000.5), ("current_limit_uA", 50_001),
                    ("voltage_step_mV", 1_000_001), ("setpoint_n", 1.0001), ("setpoint_n", -0.01), ("interval_ms", 0.009),
                    ("interval_ms", 1_000_001), ("duration_ms", 0.009), ("duration_ms", 1_000_001), ("wait_cycles", 101),
                    ("wait_cycles", -1), ("algorithm", "best"), ("order", "minmax"), ("order", "below"), ("order", "above"),
                    ("name", "neutral"), ("visible2all", True),
                ]
            ).map(list),
            "v": st.lists(floats(0, 5000), min_size=3, max_size=3, unique=True),
        }
    ),
    quick=500,
    thorough=8000,
    rule="one parameter outside its documented range (or voltages out of order) on top of a generated valid harvester: refused, while the valid one is accepted",
)
def p13_limits(case, ctx):
    kw = copy.deepcopy(case["hrv"])
    with silence():
        VirtualHarvesterConfig(**copy.deepcopy(kw))
    name, val = case["fault"]
    lo, mid, hi = sorted(case["v"])
    if name == "order":
        if mid - lo < 1e-6 or hi - mid < 1e-6:
            return
        kw["voltage_step_mV"] = 1
        kw.update(
            {
                "minmax": {"voltage_min_mV": hi, "voltage_mV": mid, "voltage_max_mV": lo},
                "below": {"voltage_min_mV": mid, "voltage_mV": lo, "voltage_max_mV": hi},
                "above": {"voltage_min_mV": lo, "voltage_mV": hi, "voltage_max_mV": mid},
            }[val]
        )
    elif name == "visible2all":
        kw.pop("description", None)
        kw[name] = val
    else:
        kw[name] = val

    def make():
        with silence():
            return VirtualHarvesterConfig(**kw)

    ctx.raises(make, f"{case['fault']}", (ValueError,))
    ctx.nontrivial()
    ctx.label(f"{name}")


# ------------------------------------------------------------------ P14
def src_defaults(kw: dict) -> dict:
    out = {
        "enable_boost": False, "enable_buck": False, "enable_feedback_to_hrv": False, "interval_startup_delay_drain_ms": 0,
        "V_input_max_mV": 10_000, "I_input_max_mA": 4200, "V_input_drop_mV": 0, "R_input_mOhm": 0, "C_intermediate_uF": 0,
        "V_intermediate_init_mV": 3000, "I_intermediate_leak_nA": 0, "V_intermediate_enable_threshold_mV": 1,
        "V_intermediate_disable_threshold_mV": 0, "interval_check_thresholds_ms": 0, "V_pwr_good_enable_threshold_mV": 2800,
        "V_pwr_good_disable_threshold_mV": 2200, "immediate_pwr_good_signal": True, "C_output_uF": 1.0,
        "V_output_log_gpio_threshold_mV": 1400, "V_input_boost_threshold_mV": 0, "V_intermediate_max_mV": 10_000,
        "LUT_input_efficiency": [[1.0] * 12] * 12, "LUT_input_V_min_log2_uV": 0, "LUT_input_I_min_log2_nA": 1,
        "V_output_mV": 2400, "V_buck_drop_mV": 0, "LUT_output_efficiency": [1.0] * 12, "LUT_output_I_min_log2_nA": 1,
    }
    if "inherit_from" in kw:
        base = gen.resolve("virtualsourceconfig", kw["inherit_from"])
        out.update({k: v for k, v in base.items() if k in out})
    out.update({k: v for k, v in kw.items() if k in out})
    return out


def cap_drop(c_store: float, c_out: float, v_cap: float, v_out: float) -> float:
    """Voltage-drop of the storage when the output-capacitor gets charged from it (energy-balance)."""
    if c_store <= 0 or c_out <= 0:
        return 0.0
    rest = v_cap**2 - c_out / c_store * v_out**2
    return v_cap - rest**0.5 if rest >= 0 else 0.0


@facet(
    "P14",
    "converter_settings",
    lambda: st.fixed_dictionaries(
        {
            "src": gen.vsrc(),
            "dtype": st.sampled_from(["ivsample", "ivcurve", "isc_voc"]),
            "log": st.booleans(),
        }
    ),
    quick=2500,
    thorough=80000,
    shards=3,
    rule="generated virtual sources (own and derived): every setting equals the documented scaling, tables keep their order, mode bits and hysteresis thresholds follow the configuration "
    "and energy balance; every valid source is representable; non-trivial: >= 5 own parameters",
)
def p14_settings(case, ctx):
    kw = case["src"]
    with silence():
        src = VirtualSourceConfig(**copy.deepcopy(kw))
    par = src_defaults(kw)
    before = src.model_dump()
    with silence():
        got = ConverterPRUConfig.from_vsrc(src, EnergyDType(case["dtype"]), log_intermediate_node=case["log"]).model_dump()
    ctx.eq(src.model_dump(), before, "source after conversion")
    want = {
        "interval_startup_delay_drain_n": par["interval_startup_delay_drain_ms"] * 100,
        "V_input_max_uV": par["V_input_max_mV"] * 1e3,
        "I_input_max_nA": par["I_input_max_mA"] * 1e6,
        "V_input_drop_uV": par["V_input_drop_mV"] * 1e3,
        "R_input_kOhm_n22": par["R_input_mOhm"] * 1e-6 * 2**22,
        "V_intermediate_init_uV": par["V_intermediate_init_mV"] * 1e3,
        "I_intermediate_leak_nA": par["I_intermediate_leak_nA"],
        "interval_check_thresholds_n": par["interval_check_thresholds_ms"] * 100,
        "V_pwr_good_enable_threshold_uV": par["V_pwr_good_enable_threshold_mV"] * 1e3,
        "V_pwr_good_disable_threshold_uV": par["V_pwr_good_disable_threshold_mV"] * 1e3,
        "immediate_pwr_good_signal": int(par["immediate_pwr_good_signal"]),
        "V_output_log_gpio_threshold_uV": par["V_output_log_gpio_threshold_mV"] * 1e3,
        "V_input_boost_threshold_uV": par["V_input_boost_threshold_mV"] * 1e3,
        "V_intermediate_max_uV": par["V_intermediate_max_mV"] * 1e3,
        "V_output_uV": par["V_output_mV"] * 1e3,
        "V_buck_drop_uV": par["V_buck_drop_mV"] * 1e3,
        "LUT_input_V_min_log2_uV": par["LUT_input_V_min_log2_uV"],
        "LUT_input_I_min_log2_nA": par["LUT_input_I_min_log2_nA"] - 1,
        "LUT_output_I_min_log2_nA": par["LUT_output_I_min_log2_nA"] - 1,
    }
    for key, val in want.items():
        scaled(ctx, got[key], val, key)
    # time-constant of the storage: dV per sample
    cap = max(par["C_intermediate_uF"], 0.001)
    scaled(ctx, got["Constant_us_per_nF_n28"], 10 / (1e3 * cap) * 2**28, "Constant_us_per_nF_n28", tol=1.0)
    # operation-mode
    storage = par["C_intermediate_uF"] > 0
    boost = par["enable_boost"] and storage
    feedback = par["enable_feedback_to_hrv"] and storage and not boost and case["dtype"] == "ivcurve"
    mode = storage + 2 * boost + 4 * par["enable_buck"] + 8 * case["log"] + 16 * feedback
    ctx.eq(got["converter_mode"], mode, "converter_mode")
    # hysteresis
    c_st, c_out, v_out = par["C_intermediate_uF"], par["C_output_uF"], par["V_output_mV"]
    v_en, v_dis = par["V_intermediate_enable_threshold_mV"], par["V_intermediate_disable_threshold_mV"]
    d_thr = cap_drop(c_st, c_out, v_en, v_out)
    d_low = cap_drop(c_st, c_out, v_out, v_out)
    v_pre = v_out + par["V_buck_drop_mV"]
    if par["enable_buck"] and v_en <= v_pre:
        exp = (d_low, v_pre + d_low)
        ctx.label("buck-low")
    else:
        exp = (d_thr, v_en)
    # near the solvability limit both answers are fine
    near = c_st > 0 and (
        abs(v_en**2 - c_out / c_st * v_out**2) < 1e-6 * (v_en**2 + v_out**2) or abs(1 - c_out / c_st) < 1e-9
    )
    if not near:
        scaled(ctx, got["dV_enable_output_uV"], exp[0] * 1e3, "dV_enable_output_uV", tol=1)
        scaled(ctx, got["V_enable_output_threshold_uV"], exp[1] * 1e3, "V_enable_output_threshold_uV", tol=1)
    exp_dis = max(v_dis, v_pre) if par["enable_buck"] else v_dis
    scaled(ctx, got["V_disable_output_threshold_uV"], exp_dis * 1e3, "V_disable_output_threshold_uV")
    # tables
    lut = got["LUT_inp_efficiency_n8"]
    ctx.eq((len(lut), {len(row) for row in lut}), (12, {12}), "shape of input table")
    for pos_v, row in enumerate(par["LUT_input_efficiency"]):
        for pos_i, val in enumerate(row):
            item = lut[pos_v][pos_i]
            ctx.check(
                0 <= item <= 255 and abs(item - min(255, val * 256)) <= 0.5 + 1e-9,
                f"input efficiency [{pos_v}][{pos_i}]: {item}, expected {val * 256}",
            )
    lut = got["LUT_out_inv_efficiency_n4"]
    ctx.eq(len(lut), 12, "length of output table")
    for pos, val in enumerate(par["LUT_output_efficiency"]):
        ref = 2**14 if val <= 0 else min(2**14, 16 / val)
        ctx.check(abs(lut[pos] - ref) <= 0.5 + 1e-9, f"inverse output efficiency [{pos}]: {lut[pos]}, expected {ref}")
    ctx.nontrivial(len(kw) >= 5)
    ctx.label(f"mode{mode}")


BOUNDS = {
    "interval_startup_delay_drain_ms": (0, 10_000), "V_input_max_mV": (0, 10_000), "I_input_max_mA": (0, 4290),
    "V_input_drop_mV": (0, 4.29e6), "R_input_mOhm": (0, 4.29e6), "C_intermediate_uF": (0, 100_000),
    "V_intermediate_init_mV": (0, 10_000), "I_intermediate_leak_nA": (0, 4.29e9), "V_intermediate_enable_threshold_mV": (0, 10_000),
    "V_intermediate_disable_threshold_mV": (0, 10_000), "interval_check_thresholds_ms": (0, 4290),
    "V_pwr_good_enable_threshold_mV": (0, 10_000), "V_pwr_good_disable_threshold_mV": (0, 10_000), "C_output_uF": (0, 4.29e6),
    "V_output_log_gpio_threshold_mV": (0, 4.29e6), "V_input_boost_threshold_mV": (0, 10_000), "V_intermediate_max_mV": (0, 10_000),
    "LUT_input_V_min_log2_uV": (0, 20), "LUT_input_I_min_log2_nA": (1, 20), "V_output_mV": (0, 5000), "V_buck_drop_mV": (0, 5000),
    "LUT_output_I_min_log2_nA": (1, 20),
}


@facet(
    "P14",
    "converter_limits",
    lambda: st.fixed_dictionaries(
        {
            "src": gen.vsrc(),
            "field": st.sampled_from([*sorted(BOUNDS), "harvester", "lut_rows", "lut_cols", "lut_val", "lut_out"]),
            "low": st.booleans(),
            "num": st.integers(0, 143),
        }
    ),
    quick=600,
    thorough=10000,
    shards=2,
    rule="one parameter of a generated valid source put on / beyond its documented bound: on it still representable, beyond it refused; wrong table shapes, entries and recording-only harvesters are refused",
)
def p14_limits(case, ctx):
    kw = copy.deepcopy(case["src"])
    with silence():
        VirtualSourceConfig(**copy.deepcopy(kw))
    name = case["field"]
    bad = copy.deepcopy(kw)
    ctx.label(name)
    ctx.nontrivial()

    def make(par):
        with silence():
            return ConverterPRUConfig.from_vsrc(VirtualSourceConfig(**par))

    if name in BOUNDS:
        lo, hi = BOUNDS[name]
        kw[name] = lo if case["low"] else hi
        make(kw)
        bad[name] = lo - 1 if case["low"] else hi + max(1, hi * 1e-6)
        if isinstance(lo, int) and "log2" in name:
            bad[name] = int(bad[name])
    elif name == "harvester":
        bad[name] = {"name": ["ivcurve", "isc_voc", "iv1000"][case["num"] % 3]}
    elif name == "lut_rows":
        bad["LUT_input_efficiency"] = [[1.0] * 12] * (11 if case["low"] else 13)
    elif name == "lut_cols":
        bad["LUT_input_efficiency"] = [[1.0] * 12] * 11 + [[1.0] * (11 if case["low"] else 13)]
    elif name == "lut_val":
        tab = [[1.0] * 12 for _ in range(12)]
        tab[case["num"] // 12][case["num"] % 12] = -0.01 if case["low"] else 1.01
        bad["LUT_input_efficiency"] = tab
    else:
        row = [1.0] * 12
        row[case["num"] % 12] = -0.01 if case["low"] else 1.01
        bad["LUT_output_efficiency"] = row

    def config_only():
        with silence():
            return VirtualSourceConfig(**bad)

    ctx.raises(config_only, f"{name} out of bounds", (ValueError,))
