"""P15-P18: simulation of the virtual source - converter, harvester, file-level, targets."""

from __future__ import annotations

import copy
import math

import h5py
import numpy as np
from hypothesis import strategies as st

from harness import models as gen
from harness.core import facet
from harness.refs import AdcRef
from harness.refs import Borderline
from harness.refs import ConverterRef
from harness.refs import Ensemble
from harness.refs import HarvesterRef
from harness.refs import SourceRef
from harness.util import T0
from harness.util import floats
from harness.util import h5_dump
from harness.util import log_floats
from harness.util import make_h5
from harness.util import seeded
from harness.util import silence
from shepherd_core import CalibrationEmulator
from shepherd_core import CalibrationHarvester
from shepherd_core import Reader
from shepherd_core.data_models import EnergyDType
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
from shepherd_core.vsource import VirtualConverterModel
from shepherd_core.vsource import VirtualHarvesterModel
from shepherd_core.vsource import VirtualSourceModel
from shepherd_core.vsource import simulate_harvester
from shepherd_core.vsource import simulate_source
from shepherd_core.vsource.target_model import ConstantCurrentTarget
from shepherd_core.vsource.target_model import ConstantPowerTarget
from shepherd_core.vsource.target_model import DiodeTarget
from shepherd_core.vsource.target_model import ResistiveTarget
from shepherd_core.vsource.target_model import TargetABC
from shepherd_core.vsource.virtual_converter_model import PruCalibration

# ---------------------------------------------------------------- converter


def uv(hi: int = 5_000_000) -> st.SearchStrategy:
    return st.one_of(st.integers(0, hi), st.integers(0, hi // 100_000).map(lambda x: x * 100_000), st.just(0))


def rarely(val: object, strat: st.SearchStrategy, n: int = 2) -> st.SearchStrategy:
    """Mostly the first value."""
    return st.integers(0, n).flatmap(lambda k: strat if k == n else st.just(val))


@st.composite
def cnv_cfg(draw) -> dict:
    mode = draw(st.sampled_from([0, 1, 3, 4, 5, 7, 17, 21, 3, 7, 5])) | draw(st.sampled_from([0, 8]))
    cap_uF = draw(log_floats(-1.5, 2.5))
    v_dis = draw(uv(4_000_000))
    v_en = min(2**32 - 1, v_dis + draw(st.one_of(uv(1_000_000), st.just(0))))
    pg_off = draw(uv(4_000_000))
    return {
        "converter_mode": mode,
        "interval_startup_delay_drain_n": draw(rarely(0, st.integers(0, 300))),
        "V_input_max_uV": draw(rarely(10_000_000, uv(6_000_000))),
        "I_input_max_nA": draw(rarely(4_200_000_000, st.one_of(st.integers(0, 10**8), st.just(0)))),
        "V_input_drop_uV": draw(rarely(0, uv(1_000_000), 1)),
        "R_input_kOhm_n22": draw(st.one_of(st.just(0), log_floats(1, 9.6).map(int))),
        "Constant_us_per_nF_n28": int(1e3 * 2**28 // (cap_uF * 1e5)) if mode & 1 else 2684354560,
        "V_intermediate_init_uV": draw(uv()),
        "I_intermediate_leak_nA": draw(rarely(0, log_floats(0, 7).map(int), 1)),
        "V_enable_output_threshold_uV": v_en,
        "V_disable_output_threshold_uV": draw(st.sampled_from([v_dis, v_dis, v_en, min(2**32 - 1, v_en + 100_000)])),
        "dV_enable_output_uV": draw(rarely(0, uv(1_000_000), 1)),
        "interval_check_thresholds_n": draw(st.one_of(st.sampled_from([0, 1, 2, 0, 1, 70_000, 429_000]), st.integers(0, 200))),
        "V_pwr_good_enable_threshold_uV": pg_off + draw(uv(1_000_000)),
        "V_pwr_good_disable_threshold_uV": pg_off,
        "immediate_pwr_good_signal": draw(st.sampled_from([0, 1])),
        "V_output_log_gpio_threshold_uV": draw(uv()),
        "V_input_boost_threshold_uV": draw(rarely(0, uv(3_000_000), 1)),
        "V_intermediate_max_uV": draw(rarely(10_000_000, uv(6_000_000), 1)),
        "V_output_uV": draw(uv()),
        "V_buck_drop_uV": draw(rarely(0, uv(1_000_000), 1)),
        "LUT_input_V_min_log2_uV": draw(st.integers(0, 20)),
        "LUT_input_I_min_log2_nA": draw(st.integers(0, 19)),
        "LUT_output_I_min_log2_nA": draw(st.integers(0, 19)),
        "LUT_inp_efficiency_n8": {"seed": draw(st.integers(0, 999))},
        "LUT_out_inv_efficiency_n4": {"seed": draw(st.integers(0, 999))},
    }


def expand_cfg(cfg: dict) -> dict:
    cfg = dict(cfg)
    rng = np.random.Generator(np.random.PCG64(cfg["LUT_inp_efficiency_n8"]["seed"]))
    cfg["LUT_inp_efficiency_n8"] = rng.integers(0, 256, size=(12, 12)).tolist()
    rng = np.random.Generator(np.random.PCG64(cfg["LUT_out_inv_efficiency_n4"]["seed"]))
    cfg["LUT_out_inv_efficiency_n4"] = rng.integers(16, 60, size=12).tolist()
    return cfg


def segment() -> st.SearchStrategy:
    free = st.fixed_dictionaries(
        {
            "v": st.one_of(uv(6_000_000), st.integers(0, 12_000_000), st.sampled_from([-5, 0])),
            "i": st.one_of(log_floats(2, 8.5).map(int), log_floats(5, 7.5).map(int), st.sampled_from([-7, 0])),
            "o": st.one_of(log_floats(0, 5.5).map(int), st.integers(0, 40), st.sampled_from([-3, 0])),
            "dv": st.sampled_from([0, 0, 0, 1000, -1000, 50_000]),
            "n": st.one_of(st.integers(1, 120), st.integers(1, 6)),
        }
    )
    # phases of charging & draining - current is scaled to the storage
    phase = st.fixed_dictionaries(
        {
            "phase": st.sampled_from(["charge", "drain", "mixed"]),
            "v": st.one_of(st.integers(500_000, 6_000_000), st.integers(3_000_000, 6_000_000)),
            "rate": log_floats(-2.5, -0.5),
            "n": st.integers(5, 120),
        }
    )
    return st.one_of(free, phase, phase, phase)


def scale(seg: dict, cfg: dict, adc_gain: float) -> dict:
    """Choose currents in a way that the storage traverses its thresholds."""
    if "phase" not in seg:
        return seg
    top = max(cfg["V_enable_output_threshold_uV"], cfg["V_pwr_good_enable_threshold_uV"], 200_000)
    i_cap = seg["rate"] * top / (cfg["Constant_us_per_nF_n28"] / 2**28)
    i_inp = int(min(4e9, 2 * i_cap * top / seg["v"]))
    i_out = int(max(1.0, min(2e5, i_cap * 1e-9 / adc_gain)))
    out = {"v": max(seg["v"], top + cfg["V_input_drop_uV"]), "dv": 0, "n": seg["n"], "i": i_inp, "o": i_out}
    if seg["phase"] == "charge":
        out["o"] = i_out // 8
    elif seg["phase"] == "drain":
        out["i"] = i_inp // 8
    return out


def cal_pair(lo_gain: float, hi_gain: float, off: float) -> st.SearchStrategy:
    return st.tuples(log_floats(lo_gain, hi_gain), st.one_of(st.just(0.0), floats(-off, off))).map(list)


@st.composite
def converter_case(draw) -> dict:
    cfg = draw(cnv_cfg())
    segs = draw(st.lists(segment(), min_size=1, max_size=12))
    # thresholds are points of interest
    pts = [cfg[k] for k in ("V_input_drop_uV", "V_intermediate_init_uV")] + [
        cfg["V_input_drop_uV"] + cfg["V_input_boost_threshold_uV"],
        cfg["V_input_drop_uV"] + cfg["V_intermediate_init_uV"],
        cfg["V_enable_output_threshold_uV"] + cfg["V_input_drop_uV"],
        cfg["V_pwr_good_enable_threshold_uV"] + cfg["V_input_drop_uV"],
        cfg["V_pwr_good_disable_threshold_uV"] + cfg["V_input_drop_uV"],
        cfg["V_output_uV"] + cfg["V_buck_drop_uV"] + cfg["V_input_drop_uV"],
    ]
    for seg in segs:
        if "phase" not in seg and draw(st.integers(0, 3)) == 0:
            seg["v"] = draw(st.sampled_from(pts)) + draw(st.sampled_from([0, 0, -1, 1]))
            seg["dv"] = 0
    return {
        "cfg": cfg,
        "segs": segs,
        "adc": draw(st.one_of(st.just([190.7e-9, 0.0]), cal_pair(-8, -6, 5e-5))),
        "dac": draw(st.one_of(st.just([76.3e-6, 0.0]), cal_pair(-5, -3.8, 0.01))),
        "set_mid": draw(rarely([], st.lists(st.tuples(st.integers(0, 7), uv()).map(list), max_size=2), 3)),
    }


def realistic_case(rnd) -> dict:
    """Thresholds, storage and currents fit each other, every parameter has a small chance of being extreme."""

    def mostly(val, *odd, chance=0.2):
        return rnd.choice(odd) if rnd.random() < chance else val

    def rv(lo, hi):
        return rnd.randrange(lo, hi, rnd.choice([1, 1000, 100_000]))

    mode = rnd.choice([0, 1, 1, 3, 3, 4, 5, 5, 7, 7, 17, 17, 21]) | rnd.choice([0, 8])
    v_out = rv(500_000, 4_000_000)
    drop_out = mostly(0, rv(0, 500_000), rv(0, 3_000_000), chance=0.4)
    v_dis = max(0, v_out + drop_out + rnd.randrange(-400_000, 800_000, 1000))
    v_en = v_dis + mostly(rv(1, 1_000_000), 0, chance=0.1)
    pg_off = max(0, v_dis + rnd.randrange(-600_000, 600_000, 1000))
    cap_uF = 10 ** rnd.uniform(-1.5, 2.5)
    drop_in = mostly(0, rv(0, 500_000), rv(0, 2_000_000), chance=0.5)
    cfg = {
        "converter_mode": mode,
        "interval_startup_delay_drain_n": mostly(0, rnd.randrange(0, 300), chance=0.3),
        "V_input_max_uV": mostly(10_000_000, rv(100_000, 6_000_000), 0),
        "I_input_max_nA": mostly(4_200_000_000, rnd.randrange(10**5, 10**8), 0),
        "V_input_drop_uV": drop_in,
        "R_input_kOhm_n22": rnd.choice([0, int(10 ** rnd.uniform(1, 5)), int(10 ** rnd.uniform(4, 8)), int(10 ** rnd.uniform(1, 9.6))]),
        "Constant_us_per_nF_n28": int(1e3 * 2**28 // (cap_uF * 1e5)) if mode & 1 else 2684354560,
        "V_intermediate_init_uV": rnd.choice([v_en, v_dis, rv(1, 5_000_000), max(0, v_dis - 50_000)]),
        "I_intermediate_leak_nA": mostly(0, int(10 ** rnd.uniform(0, 5)), int(10 ** rnd.uniform(0, 8)), chance=0.5),
        "V_enable_output_threshold_uV": v_en,
        "V_disable_output_threshold_uV": mostly(v_dis, v_en, v_en + 50_000, 0, chance=0.15),
        "dV_enable_output_uV": mostly(0, rv(1, 300_000), rv(1, 4_000_000), chance=0.5),
        "interval_check_thresholds_n": rnd.choice([0, 1, 2, rnd.choice([70_000, 429_000]), rnd.randrange(3, 20), rnd.randrange(3, 200)]),
        "V_pwr_good_enable_threshold_uV": pg_off + mostly(rv(1, 800_000), 0, chance=0.1),
        "V_pwr_good_disable_threshold_uV": pg_off,
        "immediate_pwr_good_signal": rnd.choice([0, 1]),
        "V_output_log_gpio_threshold_uV": rnd.choice([v_out, v_out - 100_000, rv(0, 4_000_000), 0]),
        "V_input_boost_threshold_uV": mostly(0, rv(0, 3_000_000), chance=0.5),
        "V_intermediate_max_uV": mostly(10_000_000, v_en, v_en + 100_000, v_dis, rv(0, 5_000_000), chance=0.5),
        "V_output_uV": v_out,
        "V_buck_drop_uV": drop_out,
        "LUT_input_V_min_log2_uV": rnd.randrange(0, 21),
        "LUT_input_I_min_log2_nA": rnd.randrange(0, 20),
        "LUT_output_I_min_log2_nA": rnd.randrange(0, 20),
        "LUT_inp_efficiency_n8": {"seed": rnd.randrange(10**6)},
        "LUT_out_inv_efficiency_n4": {"seed": rnd.randrange(10**6)},
    }
    pts = [
        drop_in, drop_in + cfg["V_input_boost_threshold_uV"], drop_in + cfg["V_intermediate_init_uV"], drop_in + v_en, drop_in + v_dis,
        drop_in + pg_off, drop_in + cfg["V_pwr_good_enable_threshold_uV"], drop_in + v_out + drop_out, drop_in + cfg["V_input_max_uV"],
        drop_in + cfg["dV_enable_output_uV"], drop_in + cfg["V_intermediate_max_uV"], drop_in + v_out, drop_in + drop_out,
    ]
    segs = []
    for num in range(rnd.randrange(2, 12)):
        if rnd.random() < (0.25 if mode & 1 else 1):
            v = rnd.choice(pts) + rnd.choice([0, 0, -1, 1]) if rnd.random() < 0.5 else rv(0, 6_000_000)
            segs.append(
                {
                    "v": mostly(v, -5, 0, 12_000_000, chance=0.1), "dv": mostly(0, 1000, -1000, 50_000, chance=0.3),
                    "i": mostly(int(10 ** rnd.uniform(3, 7.5)), 0, -7, 2**rnd.randrange(5, 28), int(10 ** rnd.uniform(2, 9.6)), chance=0.3),
                    "o": mostly(int(10 ** rnd.uniform(0, 4.5)), 0, -3, rnd.randrange(40), 2**18 - 1, 2**18, 2**19, chance=0.4),
                    "n": rnd.choice([1, 2, 5, rnd.randrange(1, 80)]),
                }
            )
        else:
            segs.append(
                {
                    "phase": rnd.choice(["charge", "drain"]) if num else "charge", "v": rv(1_000_000, 6_000_000),
                    "rate": round(10 ** rnd.uniform(-2.3, -0.7), 6), "n": rnd.randrange(10, 120),
                }
            )
    return {
        "cfg": cfg,
        "segs": segs,
        "adc": mostly([190.7e-9, 0.0], [10 ** rnd.uniform(-8, -6), -(10 ** rnd.uniform(-8, -4.5))], [10 ** rnd.uniform(-8, -6), 10 ** rnd.uniform(-8, -5)], chance=0.6),
        "dac": mostly([76.3e-6, 0.0], [10 ** rnd.uniform(-5, -3.8), rnd.uniform(-0.01, 0.01)], chance=0.4),
        "set_mid": mostly([], [[rnd.randrange(8), rv(0, 5_000_000)]]),
    }


def steps(segs: list, cfg: dict, gain: float) -> list:
    for num, seg_ in enumerate(segs):
        seg = scale(seg_, cfg, gain)
        for pos in range(seg["n"]):
            yield num, pos, seg["v"] + pos * seg["dv"], seg["i"], seg["o"]


def emu_cal(adc: list, dac: list) -> CalibrationEmulator:
    return CalibrationEmulator(
        adc_C_A={"gain": adc[0], "offset": adc[1]}, dac_V_A={"gain": dac[0], "offset": dac[1]}
    )


@facet(
    "P15",
    "converter_history",
    lambda: seeded(realistic_case),
    quick=2200,
    thorough=150000,
    shards=4,
    shrink=True,
    rule="converter settings in all modes, histories of up to 1300 samples around the thresholds: input power, output power, storage voltage, output voltage, "
    "power-good and derived values follow the reference model after every step; non-trivial: output or power-good switched at least twice",
)
@facet(
    "P15",
    "converter_edges",
    converter_case,
    quick=600,
    thorough=30000,
    shards=2,
    rule="as converter_history, but with arbitrary and extreme settings & inputs",
)
def p15_history(case, ctx):
    cfg = expand_cfg(case["cfg"])
    with silence():
        pru = ConverterPRUConfig(**copy.deepcopy(cfg))
    cnv = VirtualConverterModel(pru, PruCalibration(emu_cal(case["adc"], case["dac"])))
    ref = Ensemble(lambda noise: ConverterRef(cfg, AdcRef(*case["adc"]), tuple(case["dac"]), noise))
    mode = cfg["converter_mode"]
    ctx.label(f"mode{mode & 7}{'+fb' if mode & 16 else ''}")
    flips, last = 0, None
    n_steps = 0
    preset = {num: v for num, v in case["set_mid"]}
    try:
        for num, pos, v, i, o in steps(case["segs"], cfg, case["adc"][0]):
            if pos == 0 and num in preset:
                cnv.set_V_intermediate_uV(preset[num])
                ref.preset("v_mid", float(preset[num]))
            where = f"step {n_steps}"
            want = ref.call("inp", v, i)
            got = cnv.calc_inp_power(v, i)
            ctx.close(got, want, f"{where}: input power (V={v} I={i})", abs_=1.0 + ref.spread)
            ctx.check(got >= 0, f"{where}: negative input power")
            if not ref.feedback:
                ctx.check(got <= max(0, v) * max(0, i) * (1 + 1e-9) + 1, f"{where}: input power {got} exceeds offered {v}*{i}")
            ctx.close(cnv.get_P_input_fW(), want, f"{where}: reported input power", abs_=1.0 + ref.spread)
            if ref.feedback:
                want = ref.get("v_request")
                ctx.close(cnv.V_input_request_uV, want, f"{where}: requested voltage", abs_=1e-3 + ref.spread)
            want = ref.call("out", o)
            ctx.close(cnv.calc_out_power(o), want, f"{where}: output power (raw={o})", abs_=1.0 + ref.spread)
            ctx.close(cnv.get_P_output_fW(), want, f"{where}: reported output power", abs_=1.0 + ref.spread)
            want = ref.call("cap")
            ctx.close(cnv.update_cap_storage(), want, f"{where}: storage voltage", abs_=0.51 + ref.spread)
            if ref.storage or ref.v_mid > 0:
                ctx.close(cnv.get_I_mid_out_nA(), ref.p_out / ref.v_mid, f"{where}: current from storage", rel=1e-6, abs_=1e-3)
            want = ref.call("states")
            got = cnv.update_states_and_output()
            ctx.check(isinstance(got, int), f"{where}: dac-value is no integer {got!r}")
            ctx.check(abs(got - want) <= 0.5 + 1e-6 + ref.spread, f"{where}: output dac {got}, expected {want}")
            now = ref.call("flags")
            ctx.eq(cnv.get_power_good(), now[1], f"{where}: power-good")
            ctx.eq(bool(cnv.get_state_log_gpio()), now[2], f"{where}: skip gpio-logging")
            want = ref.get("v_mid")
            ctx.close(cnv.get_V_intermediate_uV(), want, f"{where}: reported storage voltage", abs_=0.51 + ref.spread)
            want = ref.call("raw_mid")
            ctx.check(abs(cnv.get_V_intermediate_raw() - want) <= 0.5 + 1e-6 + ref.spread, f"{where}: raw storage voltage")
            ctx.eq(cnv.get_state_log_intermediate(), ref.log_mid, "logging of intermediate")
            now = now[:2]
            flips += last is not None and now != last
            last = now
            n_steps += 1
    except Borderline:
        ctx.label("borderline")
    ctx.label(f"flips{min(flips, 4)}")
    ctx.nontrivial(flips >= 2)


def source_kwargs(rnd) -> dict:
    """Realistic virtual source in physical units."""
    v_out = rnd.randrange(500, 4000)
    drop = rnd.choice([0, 0, rnd.randrange(0, 500)])
    v_en = v_out + rnd.randrange(-300, 1000)
    kw = {
        "name": "generated source", "id": 9000 + rnd.randrange(900), "owner": "tester", "group": "testers",
        "enable_boost": rnd.random() < 0.5, "enable_buck": rnd.random() < 0.5, "enable_feedback_to_hrv": rnd.random() < 0.4,
        "interval_startup_delay_drain_ms": rnd.choice([0, 0, round(rnd.uniform(0, 3), 2)]),
        "V_input_max_mV": rnd.choice([10_000, rnd.randrange(1000, 6000)]),
        "I_input_max_mA": rnd.choice([4200, rnd.randrange(1, 100)]),
        "V_input_drop_mV": rnd.choice([0, rnd.randrange(0, 600)]),
        "R_input_mOhm": rnd.choice([0, round(10 ** rnd.uniform(0, 6.5), 3)]),
        "C_intermediate_uF": rnd.choice([0, round(10 ** rnd.uniform(-1.5, 2.5), 4), round(10 ** rnd.uniform(-1, 1.5), 4)]),
        "V_intermediate_init_mV": rnd.choice([v_en, v_en - 50, rnd.randrange(0, 5000)]),
        "I_intermediate_leak_nA": rnd.choice([0, int(10 ** rnd.uniform(0, 5))]),
        "V_intermediate_enable_threshold_mV": v_en,
        "V_intermediate_disable_threshold_mV": v_en - rnd.randrange(0, 500),
        "interval_check_thresholds_ms": rnd.choice([0, 0, 0.05, rnd.choice([700.0, 4290.0]), round(rnd.uniform(0, 2), 2)]),
        "V_pwr_good_enable_threshold_mV": v_en + rnd.randrange(-200, 300),
        "V_pwr_good_disable_threshold_mV": v_en - rnd.randrange(200, 500),
        "immediate_pwr_good_signal": rnd.random() < 0.5,
        "C_output_uF": rnd.choice([0, 0.1, 1.0, round(10 ** rnd.uniform(-2, 2), 3)]),
        "V_output_log_gpio_threshold_mV": rnd.randrange(0, 4000),
        "V_input_boost_threshold_mV": rnd.choice([0, rnd.randrange(0, 2000)]),
        "V_intermediate_max_mV": rnd.choice([10_000, v_en + 200, 5000]),
        "LUT_input_V_min_log2_uV": rnd.randrange(0, 21),
        "LUT_input_I_min_log2_nA": rnd.randrange(1, 21),
        "LUT_output_I_min_log2_nA": rnd.randrange(1, 21),
        "V_output_mV": v_out,
        "V_buck_drop_mV": drop,
        "LUT_output_efficiency": [round(rnd.uniform(0.3, 1), 3) for _ in range(12)],
        "LUT_input_efficiency": [[round(rnd.uniform(0.1, 1), 3) for _ in range(12)] for _ in range(12)],
        "harvester": harvester_kwargs(rnd),
    }
    for key in ("V_pwr_good_disable_threshold_mV", "V_intermediate_disable_threshold_mV", "V_intermediate_init_mV"):
        kw[key] = max(0, kw[key])
    for key in list(kw):
        if key not in {"name", "id", "owner", "group", "harvester"} and rnd.random() < 0.1:
            del kw[key]
    return kw


def harvester_kwargs(rnd) -> dict:
    lo = rnd.choice([0, 0, rnd.randrange(0, 2000)])
    hi = rnd.choice([5000, rnd.randrange(lo + 500, 5001)])
    kw = {
        "name": "generated harvester", "id": 9000 + rnd.randrange(900), "owner": "tester", "group": "testers",
        "algorithm": rnd.choice(["cv", "mppt_voc", "mppt_po", "mppt_opt"]),
        "voltage_mV": rnd.randrange(lo, hi + 1), "voltage_min_mV": lo, "voltage_max_mV": hi,
        "setpoint_n": round(rnd.uniform(0, 1), 3), "interval_ms": rnd.choice([1, 5, 20, 100]), "duration_ms": rnd.choice([0.1, 1, 5]),
        "rising": rnd.random() < 0.5, "enable_linear_extrapolation": rnd.random() < 0.5, "current_limit_uA": rnd.choice([10, 100, 50_000]),
        "samples_n": rnd.choice([8, 20, 50]), "wait_cycles": rnd.choice([0, 1]),
    }
    for key in list(kw):
        if key not in {"name", "id", "owner", "group", "algorithm", "voltage_mV", "voltage_min_mV", "voltage_max_mV"} and rnd.random() < 0.15:
            del kw[key]
    return kw


def source_case(rnd) -> dict:
    curve = rnd.random() < 0.6
    stream = stream_spec(rnd)
    stream["n_steps"] = min(stream["n_steps"], 50)
    load = [[int(10 ** rnd.uniform(2, 7.5)) if rnd.random() < 0.8 else 0, rnd.randrange(1, 200)] for _ in range(rnd.randrange(1, 8))]
    return {
        "src": source_kwargs(rnd),
        "dtype": "ivcurve" if curve else "ivsample",
        "stream": stream,
        "power": round(10 ** rnd.uniform(-1, 1.3), 3),
        "load": load,
        "log": rnd.random() < 0.3,
        "adc": rnd.choice([None, [10 ** rnd.uniform(-8, -6), rnd.choice([-1, 1]) * 10 ** rnd.uniform(-8, -5)]]),
        "dac": rnd.choice([None, [10 ** rnd.uniform(-5, -3.8), rnd.uniform(-0.01, 0.01)]]),
    }


def source_setup(case: dict):
    """Config for code, reference & input - shared by the history- and the file-check."""
    with silence():
        cfg = VirtualSourceConfig(**copy.deepcopy(case["src"]))
    curve = case["dtype"] == "ivcurve"
    stream = case["stream"]
    window = stream["n_steps"] * (1 + stream["wait"]) if curve else 0
    step_V = stream["v_step"] * 1e-6 if curve else None
    vs, cs = expand_stream(stream)
    cs = (cs * case["power"]).astype(np.int64)
    return cfg, window, step_V, vs, cs


def source_reference(cfg, dtype: str, window, step_V, adc, dac, *, log: bool = False) -> Ensemble:
    with silence():
        cnv = ConverterPRUConfig.from_vsrc(cfg, EnergyDType(dtype), log_intermediate_node=log).model_dump()
        hrv = HarvesterPRUConfig.from_vhrv(
            cfg.harvester, for_emu=True, dtype_in=EnergyDType(dtype), window_size=window, voltage_step_V=step_V
        ).model_dump()
    return Ensemble(lambda noise: SourceRef(cnv, hrv, adc, dac, noise))


@facet(
    "P15",
    "source_history",
    lambda: seeded(source_case),
    quick=1000,
    thorough=40000,
    shards=4,
    shrink=True,
    rule="complete virtual source (harvester, converter, feedback, cape) on generated settings, energy streams and loads: output or storage voltage of every sample and the sums of energy follow the reference; non-trivial: power came in and output was on",
)
def p15_source(case, ctx):
    cfg, window, step_V, vs, cs = source_setup(case)
    cal = CalibrationEmulator()
    adc = case["adc"] or [cal.adc_C_A.gain, cal.adc_C_A.offset]
    dac = case["dac"] or [cal.dac_V_A.gain, cal.dac_V_A.offset]
    ref = source_reference(cfg, case["dtype"], window, step_V, adc, dac, log=case["log"])
    with silence():
        src = VirtualSourceModel(
            cfg, emu_cal(adc, dac), EnergyDType(case["dtype"]), window_size=window, voltage_step_V=step_V, log_intermediate=case["log"]
        )
    load = [cur for cur, num in case["load"] for _ in range(num)]
    ctx.label(case["dtype"], f"mode{ref.cnv.cfg['converter_mode']}")
    active = False
    try:
        for num, (v, i) in enumerate(zip(vs.tolist(), cs.tolist())):
            o = load[num % len(load)]
            want = ref.call("step", v, i, o)
            got = src.iterate_sampling(V_inp_uV=v, I_inp_nA=i, I_out_nA=o)
            ctx.close(got, want, f"sample {num} (V={v} I={i} Iout={o})", abs_=1.01 + ref.spread)
            ctx.eq(src.cnv.get_power_good(), ref.call("flags")[1], f"sample {num}: power-good")
            want = ref.get("w_in")
            ctx.close(src.W_inp_fWs, want, f"sample {num}: input energy", abs_=num + 1 + ref.spread)
            want = ref.get("w_out")
            ctx.close(src.W_out_fWs, want, f"sample {num}: output energy", abs_=num + 1 + ref.spread)
            active |= ref.cnv.connected and ref.cnv.p_in > 0
    except Borderline:
        ctx.label("borderline")
    ctx.nontrivial(active)


# ---------------------------------------------------------------- harvester

ALGO_NUM = {"cv": 2**8, "mppt_voc": 2**12, "mppt_po": 2**13, "mppt_opt": 2**14, "neutral": 1, "ivcurve": 16}


def solar(v: np.ndarray, voc: float, isc: float, soft: float) -> np.ndarray:
    """Curve of a solar cell: isc at 0 V, 0 A at & above voc."""
    out = isc * (1 - np.expm1(np.minimum(v / voc, 1.0) * soft) / np.expm1(soft))
    return np.maximum(out, 0)


def expand_stream(stream: dict) -> tuple[np.ndarray, np.ndarray]:
    """Samples of consecutive iv-curves in uV & nA."""
    n_steps, wait = stream["n_steps"], stream["wait"]
    pos = np.repeat(np.arange(n_steps), 1 + wait)
    if not stream["rising"]:
        pos = pos[::-1]
    ramp = stream["v_min"] + pos * stream["v_step"]
    vs, cs = [], []
    rng = np.random.Generator(np.random.PCG64(stream["seed"]))
    for voc, isc, soft in stream["curves"]:
        vs.append(ramp)
        cs.append(solar(ramp, voc, isc, soft))
    v = np.concatenate(vs).astype(float)
    i = np.concatenate(cs)
    if stream["noise"]:
        v = v + rng.normal(0, stream["noise"] * stream["v_step"], len(v))
        i = i * (1 + rng.normal(0, stream["noise"] / 20, len(i)))
    if stream["chaos"]:
        hit = rng.random(len(v)) < stream["chaos"]
        v = np.where(hit, rng.integers(0, 6_000_000, len(v)), v)
        i = np.where(hit, rng.integers(0, 50_000_000, len(v)), i)
    return np.maximum(v, 0).astype(np.int64), np.maximum(i, 0).astype(np.int64)


def stream_spec(rnd, *, static: bool = False) -> dict:
    n_steps = rnd.choice([2, 4, 8, 16, 50, 100, 250] if not static else [16, 50, 100, 250])
    wait = rnd.choice([0, 0, 1, 2])
    v_min = rnd.choice([0, 0, rnd.randrange(0, 1_000_000)])
    v_max = rnd.randrange(v_min + 500_000, 5_000_001)
    step = max(1000, (v_max - v_min) // (n_steps - 1))
    curve = [rnd.uniform(0.2, 1.2) * v_max, 10 ** rnd.uniform(4, 7.7), rnd.choice([0.5, 3.0, 8.0, 15.0])]
    curves = [curve]
    for _ in range(min(30, rnd.randrange(3, 12) if n_steps > 20 else rnd.randrange(3, 40))):
        if not static and rnd.random() < 0.4:
            curve = [curve[0] * rnd.uniform(0.8, 1.2), curve[1] * rnd.uniform(0.3, 2), curve[2]]
        curves.append(curve)
    return {
        "n_steps": n_steps, "wait": wait, "rising": rnd.random() < 0.5, "v_min": v_min, "v_step": step, "curves": curves,
        "noise": 0 if static else rnd.choice([0, 0, 0.3, 2.0]), "chaos": 0 if static else rnd.choice([0, 0, 0, 0.1, 1.0]), "seed": rnd.randrange(10**6),
    }


def harvester_case(rnd, *, static: bool = False) -> dict:
    stream = stream_spec(rnd, static=static)
    win = stream["n_steps"] * (1 + stream["wait"])
    v_hi = stream["v_min"] + stream["v_step"] * stream["n_steps"]
    v_lim = sorted([rnd.choice([0, 0, rnd.randrange(0, v_hi)]), rnd.choice([v_hi, 5_000_000, rnd.randrange(1, v_hi)])])
    interval = rnd.choice([win, win + 1, 2 * win, 3 * win, rnd.randrange(1, 5 * win), 10 * win])
    algo = rnd.choice(["cv", "mppt_voc", "mppt_po", "mppt_opt"] * 4 + ["neutral", "ivcurve"])
    return {
        "stream": stream,
        "cfg": {
            "algorithm": ALGO_NUM[algo],
            "hrv_mode": rnd.choice([1, 3, 5, 7, 7, 3]),
            "window_size": win if static or rnd.random() < 0.9 else rnd.choice([0, 1, 2]),
            "voltage_uV": rnd.choice([rnd.randrange(v_lim[0], v_lim[1] + 1), rnd.randrange(0, 5_000_001)]),
            "voltage_min_uV": v_lim[0],
            "voltage_max_uV": v_lim[1],
            "voltage_step_uV": stream["v_step"] if static or rnd.random() < 0.9 else rnd.randrange(1, 200_000),
            "current_limit_nA": rnd.choice([1, 1000, 10_000, 500_000]),
            "setpoint_n8": rnd.randrange(0, 256),
            "interval_n": max(1, interval),
            "duration_n": rnd.choice([win, 1, max(1, interval // 2), rnd.randrange(1, max(2, interval + 1))]),
            "wait_cycles_n": stream["wait"],
        },
    }


@facet(
    "P16",
    "harvester_stream",
    lambda: seeded(harvester_case),
    quick=3000,
    thorough=100000,
    shards=4,
    shrink=True,
    rule="all algorithms on streams of up to 31 static / changing / noisy / arbitrary iv-curves: every sample equals the reference, is not negative, and stays inside the voltage-limits (mppt_opt); "
    "non-trivial: operating point changed at least 5 times",
)
def p16_stream(case, ctx):
    cfg = case["cfg"]
    with silence():
        hrv = VirtualHarvesterModel(HarvesterPRUConfig(**cfg))
    ref = HarvesterRef(cfg)
    vs, cs = expand_stream(case["stream"])
    ctx.label(ref.algo, "window>1" if cfg["window_size"] > 1 else "window<=1")
    changes, last = 0, None
    for num, (v, i) in enumerate(zip(vs.tolist(), cs.tolist())):
        got = tuple(hrv.ivcurve_sample(v, i))
        ctx.eq(got, ref.sample(v, i), f"sample {num} (V={v} I={i})")
        ctx.check(got[0] >= 0 and got[1] >= 0, f"sample {num} is negative: {got}")
        if cfg["window_size"] <= 1 or cfg["algorithm"] < ALGO_NUM["cv"]:
            ctx.eq(got, (v, i), f"sample {num} is not passed through")
        elif ref.algo == "opt" and got != (0, 0):
            ctx.check(cfg["voltage_min_uV"] <= got[0] <= cfg["voltage_max_uV"], f"sample {num}: {got} outside voltage limits")
        changes += got != last
        last = got
    ctx.nontrivial(changes > 5)


@facet(
    "P16",
    "ideal_curves",
    lambda: seeded(lambda rnd: harvester_case(rnd, static=True)),
    quick=2500,
    thorough=80000,
    shards=2,
    shrink=True,
    rule="repeated ideal curve: mppt_opt yields the maximum power inside its limits, cv stays next to its voltage, mppt_voc at its fraction of the open circuit voltage, mppt_po inside its limits; non-trivial: operating point is inside the curve",
)
def p16_ideal(case, ctx):
    cfg = dict(case["cfg"])
    stream = case["stream"]
    algo = next((a for a, n in ALGO_NUM.items() if n == cfg["algorithm"]), "")
    if algo in {"neutral", "ivcurve"} or len(stream["curves"]) < 4:
        return
    win, step = cfg["window_size"], cfg["voltage_step_uV"]
    if algo == "mppt_voc":
        # measurement has to cover a whole curve
        cfg["interval_n"] = 3 * win
        cfg["duration_n"] = win
    with silence():
        hrv = VirtualHarvesterModel(HarvesterPRUConfig(**cfg))
    vs, cs = expand_stream(stream)
    got, aims = [], set()
    for v, i in zip(vs.tolist(), cs.tolist()):
        got.append(hrv.ivcurve_sample(v, i))
        aims.add(hrv.voltage_set_uV)
    got = np.array(got)
    ctx.label(algo)
    lo, hi = cfg["voltage_min_uV"], cfg["voltage_max_uV"]
    late = got[2 * win :]
    top = vs.max()
    if algo == "mppt_opt":
        power = np.where((vs >= lo) & (vs <= hi), vs * cs, 0)[:win].max()
        ctx.check((late.prod(axis=1) == power).all(), f"power is {set(late.prod(axis=1))}, maximum of curve {power}")
        ctx.nontrivial(power > 0)
    elif algo == "cv":
        want = cfg["voltage_uV"] + 1
        inside = vs.min() + 2 * step < want < top - 2 * step
        ctx.nontrivial(inside)
        if inside:
            dist = np.abs(late[:, 0] - want).max()
            ctx.check(dist <= 2 * step, f"voltage is off by {dist} uV (step {step} uV)")
            order = np.argsort(vs[:win], kind="stable")
            i_lo = np.interp(want + 2 * step, vs[:win][order], cs[:win][order])
            i_hi = np.interp(want - 2 * step, vs[:win][order], cs[:win][order])
            slope = np.abs(np.diff(cs[:win])).max()
            ok = (late[:, 1] >= i_lo - 2 * slope - 2) & (late[:, 1] <= i_hi + 2 * slope + 2)
            ctx.check(ok.all(), f"current {late[:, 1].min()}..{late[:, 1].max()} is not next to the curve {i_lo}..{i_hi}")
    elif algo == "mppt_voc":
        cand = vs[:win][(cs[:win] < cfg["current_limit_nA"]) & (vs[:win] >= max(1000, lo)) & (vs[:win] <= hi)]
        voc = min(cand.min() if len(cand) else hi, hi)
        want = int(voc * cfg["setpoint_n8"] / 256)
        inside = vs.min() + 2 * step < want < top - 2 * step
        # settled after the third interval started & one more curve passed
        tail = got[8 * win :]
        tick = (np.arange(len(got)) + 1 + cfg["interval_n"] - 2 * win) % cfg["interval_n"]
        hold = tail[(tick[8 * win :] > 2 * win)] if len(tail) else tail
        ctx.nontrivial(inside and len(hold) > 0)
        if inside and len(hold):
            dist = np.abs(hold[:, 0] - want).max()
            ctx.check(dist <= 3 * step, f"voltage is off by {dist} uV from {want} (voc {voc}, step {step})")
    else:
        aims.discard(cfg["voltage_uV"] + 1)
        ctx.check(
            all(lo <= aim <= max(hi, step) for aim in aims), f"target voltages {min(aims, default=0)}..{max(aims, default=0)} exceed the limits {lo}..{hi}"
        )
        ctx.nontrivial(len(aims) > 3)


# ---------------------------------------------------------------- files


class Probe(TargetABC):
    """Target that records what it sees and draws a scheduled current."""

    def __init__(self, load: list) -> None:
        self.load = [cur for cur, num in load for _ in range(num)]
        self.seen: list = []

    def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
        cur = self.load[len(self.seen) % len(self.load)] if voltage_uV > 100_000 else 0
        if not pwr_good:
            cur //= 4
        self.seen.append((voltage_uV, pwr_good, cur))
        return cur


def file_case(rnd) -> dict:
    case = source_case(rnd)
    case["dtype"] = rnd.choice(["ivcurve", "ivcurve", "ivsample", "ivsample", "isc_voc"])
    case["stream"].update({"noise": 0, "chaos": rnd.choice([0, 0, 0.01]) if case["dtype"] == "ivsample" else 0})
    case["n"] = rnd.choice([10_000, 20_000, rnd.randrange(10_000, 21_000), rnd.randrange(1, 10_000)] if rnd.random() < 0.6 else [10_000])
    case["cal"] = rnd.choice([None, {"voltage": [10 ** rnd.uniform(-8.5, -5), rnd.uniform(-0.001, 0.001)], "current": [10 ** rnd.uniform(-9.5, -8), rnd.choice([1e-7, 1e-7, 3e-5]) * rnd.uniform(-1, 1)]}])
    # leakage: measured current falls below zero (only representable with negative offset)
    case["leak_nA"] = rnd.choice([0, 0, rnd.randrange(1_000, 100_000)])
    case["output"] = rnd.random() < 0.8
    case["stale"] = rnd.random() < 0.2
    case["interval"] = rnd.choice([10_000, 10_000, 20_000, 33_333, rnd.randrange(2_000, 100_000)])
    case["monitor"] = rnd.random() < 0.15
    case["hrv"] = harvester_kwargs(rnd)
    return case


def file_input(case: dict, path) -> tuple[np.ndarray, np.ndarray]:
    """Build the recording, returns integer samples in uV & nA as read back from it."""
    stream = case["stream"]
    vs, cs = expand_stream(stream)
    cs = (cs * case["power"]).astype(np.int64) - case.get("leak_nA", 0)
    n = case["n"]
    vs, cs = np.resize(vs, n), np.resize(cs, n)
    cal = case["cal"] or {"voltage": [3e-9, 0.0], "current": [250e-12, 0.0]}
    (g_v, o_v), (g_c, o_c) = cal["voltage"], cal["current"]
    v_raw = np.clip(np.around((vs * 1e-6 - o_v) / g_v), 0, 2**32 - 1).astype(np.uint32)
    c_raw = np.clip(np.around((cs * 1e-9 - o_c) / g_c), 0, 2**32 - 1).astype(np.uint32)
    for raw, gain, off, unit in ((v_raw, g_v, o_v, 1e6), (c_raw, g_c, o_c, 1e9)):
        # the code truncates to integers -> avoid values where float-noise matters
        si = (raw * gain + off) * unit
        raw += ((np.abs(si - np.around(si)) < 1e-6) & (si != 0)).astype(np.uint32)
    window = stream["n_steps"] * (1 + stream["wait"]) if case["dtype"] == "ivcurve" else 0
    make_h5(
        path, ns(n, case["interval"]), v_raw, c_raw, datatype=case["dtype"], window=window, cal={"voltage": (g_v, o_v), "current": (g_c, o_c)}, hostname="origin"
    )
    full = n // 10_000 * 10_000
    v_uV = (v_raw[:full] * g_v + o_v) * 1e6
    c_nA = (c_raw[:full] * g_c + o_c) * 1e9
    for arr in (v_uV, c_nA):
        noisy = (np.abs(arr - np.around(arr)) < 1e-6) & (arr != 0)
        arr[noisy] = np.nan
    return v_uV, c_nA


def ns(n: int, interval: int = 10_000) -> np.ndarray:
    return np.uint64(T0) + np.arange(n, dtype=np.uint64) * np.uint64(interval)


def read_result(ctx, path, mode: str, cal, n: int, interval: int) -> tuple[np.ndarray, np.ndarray]:
    with h5py.File(path, "r") as h5f:
        data = h5f["data"]
        ctx.eq(h5f.attrs["mode"], mode, "mode of result")
        ctx.eq(data.attrs["datatype"], "ivsample", "datatype of result")
        ctx.eq(data["time"].shape[0], n, "samples in result")
        ctx.check((data["time"][:] == ns(n, interval)).all(), "time stamps differ from input")
        out = []
        for name, pair in (("voltage", cal[0]), ("current", cal[1])):
            ctx.eq(data[name].shape[0], n, f"samples of {name}")
            ctx.close(data[name].attrs["gain"], pair.gain, f"gain of {name}")
            ctx.close(data[name].attrs["offset"], pair.offset, f"offset of {name}")
            out.append(data[name][:].astype(np.int64))
    return out[0], out[1]


def raw_matches(ctx, raw: np.ndarray, si: np.ndarray, pair, what: str) -> None:
    want = np.maximum((si - pair.offset) / pair.gain, 0)
    dist = np.abs(raw - want)
    pos = int(dist.argmax()) if len(dist) else 0
    ctx.check(not len(dist) or dist.max() <= 0.5 + 1e-6, lambda: f"{what}[{pos}]: raw {raw[pos]}, expected {want[pos]}")


@facet(
    "P17",
    "harvester_file",
    lambda: seeded(file_case),
    quick=300,
    thorough=6000,
    shards=6,
    rule="recordings of up to 21k samples (any datatype, calibration, length) & harvester settings: returned energy and stored samples equal the reference applied to each buffer, time stamps are kept, hostname names the harvester, "
    "input is unchanged, isc_voc is refused; non-trivial: at least one full buffer and energy > 0",
)
def p17_harvester(case, ctx):
    path, out = ctx.tmp / "input.h5", (ctx.tmp / "out.h5" if case["output"] else None)
    v_uV, c_nA = file_input(case, path)
    if out and case["stale"]:
        make_h5(out, ns(50), np.ones(50), np.ones(50), mode="emulator", hostname="stale")
    with silence():
        cfg = VirtualHarvesterConfig(**copy.deepcopy(case["hrv"]))
        with Reader(path, verbose=False) as rdr:
            step_V, window = rdr.get_voltage_step(), rdr.get_window_samples()
    before = h5_dump(path)
    ctx.label(case["dtype"], cfg.algorithm)

    def run():
        with silence():
            return simulate_harvester(cfg, path, out)

    if case["dtype"] == "isc_voc" or (case["dtype"] == "ivcurve" and step_V is None):
        ctx.raises(run, f"simulation of {case['dtype']}", (ValueError, NotImplementedError))
        ctx.eq(h5_dump(path), before, "input-file")
        return
    energy = run()
    ctx.eq(h5_dump(path), before, "input-file")
    with silence():
        pru = HarvesterPRUConfig.from_vhrv(
            cfg, for_emu=True, dtype_in=EnergyDType(case["dtype"]), window_size=window, voltage_step_V=step_V
        ).model_dump()
    if np.isnan(v_uV).any() or np.isnan(c_nA).any():
        ctx.label("borderline")
        return
    ref = HarvesterRef(pru)
    want = np.array([ref.sample(int(v), int(i)) for v, i in zip(v_uV.tolist(), c_nA.tolist())], dtype=float).reshape(-1, 2)
    ctx.close(energy, float((want[:, 0] * want[:, 1]).sum() * 1e-15 * case["interval"] * 1e-9), "harvested energy", rel=1e-9, abs_=1e-18)
    ctx.nontrivial(energy > 0)
    if out is None:
        return
    cal = CalibrationHarvester()
    v_raw, c_raw = read_result(ctx, out, "harvester", (cal.adc_V_Sense, cal.adc_C_Hrv), len(want), case["interval"])
    raw_matches(ctx, v_raw, want[:, 0] * 1e-6, cal.adc_V_Sense, "voltage")
    raw_matches(ctx, c_raw, want[:, 1] * 1e-9, cal.adc_C_Hrv, "current")
    with silence(), Reader(out, verbose=False) as rdr:
        ctx.check(rdr.is_valid(), "result is no valid recording")
        ctx.check(cfg.name in rdr.get_hostname(), f"hostname {rdr.get_hostname()} does not name the harvester")


@facet(
    "P17",
    "source_file",
    lambda: seeded(file_case),
    quick=300,
    thorough=6000,
    shards=6,
    case_timeout=300,
    rule="recordings of up to 21k samples (any datatype, calibration, length), source settings and a target with a scheduled load: voltages the target sees, power-good, returned energy and stored samples follow the reference, "
    "time stamps, configuration & hostname are stored, monitoring adds a plot and changes nothing else, input is unchanged; non-trivial: target consumed energy",
)
def p17_source(case, ctx):
    path, out = ctx.tmp / "input.h5", (ctx.tmp / "out.h5" if case["output"] else None)
    v_uV, c_nA = file_input(case, path)
    if out and case["stale"]:
        make_h5(out, ns(50), np.ones(50), np.ones(50), mode="emulator", hostname="stale")
    with silence():
        cfg = VirtualSourceConfig(**copy.deepcopy(case["src"]))
        with Reader(path, verbose=False) as rdr:
            step_V, window = rdr.get_voltage_step(), rdr.get_window_samples()
    before = h5_dump(path)
    ctx.label(case["dtype"])
    target = Probe(case["load"])

    def run():
        with silence():
            return simulate_source(cfg, target, path, out, monitor_internals=case["monitor"])

    if case["dtype"] == "isc_voc" or (case["dtype"] == "ivcurve" and step_V is None):
        ctx.raises(run, f"simulation of {case['dtype']}", (ValueError, NotImplementedError))
        ctx.eq(h5_dump(path), before, "input-file")
        return
    energy = run()
    ctx.eq(h5_dump(path), before, "input-file")
    n = len(v_uV)
    ctx.eq(len(target.seen), n, "steps of the target")
    seen = np.array([(v, i) for v, _, i in target.seen], dtype=float).reshape(-1, 2)
    # voltage is handed over as integer
    ctx.close(energy, float((seen[:, 0] * seen[:, 1]).sum() * 1e-15 * case["interval"] * 1e-9), "consumed energy", rel=1e-9, abs_=1e-18)
    ctx.nontrivial(energy > 0)
    cal = CalibrationEmulator()
    adc, dac = [cal.adc_C_A.gain, cal.adc_C_A.offset], [cal.dac_V_A.gain, cal.dac_V_A.offset]
    if np.isnan(v_uV).any() or np.isnan(c_nA).any():
        ctx.label("borderline")
    else:
        ref = source_reference(cfg, case["dtype"], window, step_V, adc, dac)
        i_out = 0
        try:
            for num, (v, i, (v_t, good, i_t)) in enumerate(zip(v_uV.tolist(), c_nA.tolist(), target.seen)):
                want = ref.call("step", int(v), int(i), i_out)
                ctx.close(v_t, want, f"sample {num}: voltage of target", abs_=1.01 + ref.spread)
                ctx.eq(good, ref.call("flags")[1], f"sample {num}: power-good")
                i_out = i_t
        except Borderline:
            ctx.label("borderline")
    if out is None:
        return
    v_raw, c_raw = read_result(ctx, out, "emulator", (cal.dac_V_A, cal.adc_C_A), n, case["interval"])
    raw_matches(ctx, v_raw, seen[:, 0] * 1e-6, cal.dac_V_A, "voltage")
    raw_matches(ctx, c_raw, seen[:, 1] * 1e-9, cal.adc_C_A, "current")
    with silence(), Reader(out, verbose=False) as rdr:
        ctx.check(rdr.is_valid(), "result is no valid recording")
        ctx.check(cfg.name in rdr.get_hostname(), f"hostname {rdr.get_hostname()} does not name the source")
        stored = rdr.get_config()
    for key in ("name", "V_output_mV", "C_intermediate_uF", "enable_buck", "LUT_input_efficiency"):
        ctx.eq(stored.get(key), cfg.model_dump()[key], f"stored config, {key}")
    plot = out.with_suffix(".png")
    ctx.eq(plot.exists() and plot.stat().st_size > 1000, case["monitor"], "plot of internals exists")


# ---------------------------------------------------------------- targets


def target_case() -> st.SearchStrategy:
    volts = st.lists(st.one_of(st.integers(0, 10_000_000), st.integers(0, 5_000), st.sampled_from([0, 1])), min_size=2, max_size=12)
    kinds = st.one_of(
        st.fixed_dictionaries({"kind": st.just("R"), "R": log_floats(-2, 7), "ctrl": st.booleans()}),
        st.fixed_dictionaries(
            {"kind": st.just("D"), "V": floats(0.21, 4), "I": log_floats(-5, 0), "R": log_floats(-2, 6), "ctrl": st.booleans()}
        ),
        st.fixed_dictionaries({"kind": st.just("I"), "act": log_floats(-9, 0), "slp": st.one_of(st.just(0), log_floats(-10, -3))}),
        st.fixed_dictionaries({"kind": st.just("P"), "act": log_floats(-9, 1), "slp": st.one_of(st.just(0), log_floats(-10, -3))}),
    )
    return st.fixed_dictionaries({"par": kinds, "volts": volts})


def make_target(par: dict):
    if par["kind"] == "R":
        return ResistiveTarget(par["R"], controlled=par["ctrl"])
    if par["kind"] == "D":
        return DiodeTarget(par["V"], par["I"], par["R"], controlled=par["ctrl"])
    return (ConstantCurrentTarget if par["kind"] == "I" else ConstantPowerTarget)(par["act"], par["slp"])


def diode_current(par: dict, volt: float) -> float:
    """Current [A] through diode & resistor by bisection of the current."""
    n_vt = 2 * 1.380649e-23 * 373.15 / 1.6021766e-19
    sat = par["I"] / math.expm1(par["V"] / n_vt)
    lo, hi = 0.0, volt / par["R"]
    for _ in range(200):
        mid = (lo + hi) / 2
        if n_vt * math.log1p(mid / sat) + mid * par["R"] > volt:
            hi = mid
        else:
            lo = mid
    return lo


@facet(
    "P18",
    "target_laws",
    target_case,
    quick=3000,
    thorough=100000,
    shards=2,
    rule="parameters of all targets x voltages: current is finite, >= 0, equals the law of the target in the active and sleeping state, is monotone for passive targets; non-trivial: at least two different voltages above 0",
)
def p18_laws(case, ctx):
    par = case["par"]
    tgt = make_target(par)
    ctx.label(par["kind"])
    ctx.nontrivial(len({v for v in case["volts"] if v > 0}) >= 2)
    passive = []
    for volt in sorted(case["volts"]):
        for good in (True, False):
            got = tgt.step(volt, pwr_good=good)
            ctx.check(math.isfinite(got) and got >= 0, f"current at {volt} uV: {got}")
            if par["kind"] in "RD":
                if par["ctrl"] and not good:
                    ctx.eq(got, 0, f"current of controlled target without power-good at {volt} uV")
                elif par["kind"] == "R":
                    ctx.close(got, volt * 1e-6 / par["R"] * 1e9, f"current of resistor at {volt} uV")
                else:
                    want = diode_current(par, volt * 1e-6) * 1e9
                    ctx.close(got, want, f"current of diode at {volt} uV", rel=2e-3, abs_=1e-3)
                if good:
                    passive.append((volt, got))
            elif par["kind"] == "I":
                ctx.close(got, (par["act"] if good else par["slp"]) * 1e9, f"constant current at {volt} uV")
            elif volt > 0:
                ctx.close(got, (par["act"] if good else par["slp"]) * 1e15 / volt, f"constant power at {volt} uV")
            else:
                ctx.eq(got, 0, "current of constant power without supply")
    for (v_a, i_a), (v_b, i_b) in zip(passive, passive[1:]):
        ctx.check(i_b >= i_a * (1 - 1e-3) - 1e-3, f"current falls from {i_a} to {i_b} between {v_a} and {v_b} uV")


@facet(
    "P18",
    "target_limits",
    lambda: st.fixed_dictionaries({"kind": st.sampled_from(["R", "DR", "DV", "DI", "Ia", "Is", "Pa", "Ps"]), "val": st.one_of(st.just(0), log_floats(-6, 3).map(lambda x: -x))}),
    quick=200,
    thorough=2000,
    rule="non-positive parameters are refused; every case is non-trivial",
)
def p18_limits(case, ctx):
    kind, val = case["kind"], case["val"]
    if kind in {"Is", "Ps"} and val == 0:
        val = -1e-9
    ctx.label(kind)
    ctx.nontrivial()
    make = {
        "R": lambda: ResistiveTarget(val), "DR": lambda: DiodeTarget(2.0, 0.02, val), "DV": lambda: DiodeTarget(val, 0.02, 100),
        "DI": lambda: DiodeTarget(2.0, val, 100), "Ia": lambda: ConstantCurrentTarget(val), "Is": lambda: ConstantCurrentTarget(1e-3, val),
        "Pa": lambda: ConstantPowerTarget(val), "Ps": lambda: ConstantPowerTarget(1e-3, val),
    }[kind]
    ctx.raises(make, f"{kind}={val}", (ValueError,))
