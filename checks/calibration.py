"""P09-P10: conversion between raw- and physical values, calibration containers."""

from __future__ import annotations

import struct

import numpy as np
from hypothesis import strategies as st

from harness.core import facet
from harness.util import floats
from harness.util import log_floats
from harness.util import series
from harness.util import spec_st
from shepherd_core import CalibrationCape
from shepherd_core import CalibrationEmulator
from shepherd_core import CalibrationHarvester
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_core import calibration_hw_def as hwd
from shepherd_core.data_models.base.cal_measurement import CalMeasurementCape
from shepherd_core.data_models.base.cal_measurement import CalMeasurementEmulator
from shepherd_core.data_models.base.cal_measurement import CalMeasurementHarvester
from shepherd_core.data_models.base.calibration import CapeData

HRV = ["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"]
EMU = ["dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B"]


def pair_st(lo: float = -12, hi: float = 2) -> st.SearchStrategy:
    return st.builds(
        lambda g, o: {"gain": g, "offset": o},
        log_floats(lo, hi),
        st.one_of(st.just(0.0), st.just(0), floats(-10, 10), floats(-0.01, 0.01)),
    )


# ---------------------------------------------------------------- P09 conversions
@facet(
    "P09",
    "pair_inverse",
    lambda: st.fixed_dictionaries(
        {
            "gain": log_floats(-12, 3),
            "ratio": st.one_of(st.just(0.0), floats(-1e7, 1e7)),
            "raws": st.lists(
                st.one_of(st.integers(0, 2**32 - 1), st.integers(0, 2**18), st.sampled_from([0, 1, 2**32 - 1])),
                min_size=1,
                max_size=20,
            ),
            "below": st.lists(floats(0.51, 1e6), max_size=4),
            "frac": st.lists(floats(-0.49, 0.49), min_size=1, max_size=5),
        }
    ),
    quick=1500,
    thorough=40000,
    shards=2,
    rule="generated gain (1e-12..1e3), offset and raw values: raw->si is linear, si->raw inverts it "
    "also from within half a step, scalars and arrays agree, values below range give 0, inputs "
    "stay unchanged; non-trivial: offset != 0",
)
def p09_pair(case, ctx):
    gain = case["gain"]
    offset = gain * case["ratio"]
    cal = CalibrationPair(gain=gain, offset=offset)
    raws = case["raws"]
    arr = np.array(raws, dtype="u8")
    keep = arr.copy()
    si_arr = cal.raw_to_si(arr)
    ctx.check(np.array_equal(arr, keep), "input array was altered")
    for raw, got in zip(raws, si_arr.tolist()):
        want = raw * gain + offset
        tol = 1e-12 * (raw * gain + abs(offset))
        ctx.close(got, want, f"si of {raw}", rel=0, abs_=tol)
        scalar = cal.raw_to_si(raw)
        ctx.check(isinstance(scalar, float), f"scalar conversion returns {type(scalar)}")
        ctx.close(scalar, want, f"si of scalar {raw}", rel=0, abs_=tol)
        pos = cal.raw_to_si(raw, allow_negative=False)
        ctx.close(pos, max(want, 0.0), f"clamped si of scalar {raw}", rel=0, abs_=tol)
        ctx.check(isinstance(pos, float), f"scalar conversion returns {type(pos)}")
        back = cal.si_to_raw(got)
        ctx.check(back == raw and isinstance(back, int), f"raw {raw} -> si {got!r} -> raw {back!r}")
        for frac in case["frac"]:
            if raw + frac < 0:
                continue
            near = cal.si_to_raw(got + frac * gain)
            ctx.eq(near, raw, f"raw of si near {raw} ({frac:+.2f} steps)")
    si_keep = si_arr.copy()
    back_arr = cal.si_to_raw(si_arr)
    ctx.check(np.array_equal(si_keep, si_arr), "input array was altered")
    ctx.eq(back_arr.tolist(), [float(r) for r in raws], "array raw -> si -> raw")
    pos_arr = cal.raw_to_si(arr, allow_negative=False)
    ctx.check(bool(np.all(pos_arr >= 0)), "negative values although not allowed")
    ctx.check(np.array_equal(pos_arr, np.maximum(si_arr, 0.0)), "clamping changed other values")
    below = [offset - b * gain for b in case["below"]]
    for val in below:
        ctx.eq(cal.si_to_raw(val), 0, f"raw of {val!r} below range")
    if below:
        low = np.array(below)
        ctx.eq(cal.si_to_raw(low).tolist(), [0.0] * len(below), "raw of array below range")
        ctx.eq(low.tolist(), below, "input array after conversion")
    ctx.nontrivial(offset != 0)


@facet(
    "P09",
    "pair_from_function",
    lambda: st.fixed_dictionaries(
        {"a": log_floats(-3, 9), "b": floats(-1e3, 1e3), "unit": st.sampled_from([None, "V", "A"])}
    ),
    quick=300,
    thorough=5000,
    rule="linear si->raw functions with generated slope and intercept; the probed calibration "
    "reproduces their inverse; non-trivial: intercept != 0",
)
def p09_from_fn(case, ctx):
    a, b = case["a"], case["b"]

    def func(val: float, *, limited: bool = True) -> float:
        raw = a * val + b
        return min(max(raw, 0), 1) if limited else raw

    cal = CalibrationPair.from_fn(func, unit=case["unit"])
    ctx.close(cal.gain, 1.0 / a, "gain", rel=1e-9 * (1 + abs(b) / a))
    ctx.close(cal.offset, -b / a, "offset", rel=1e-9 * (1 + abs(b) / a), abs_=1e-15)
    ctx.eq(cal.unit, case["unit"], "unit")
    ctx.nontrivial(b != 0)


HW = {
    # name: (si->raw, raw->si, lsb [si], bits)
    "adc_current": ("adc_current_to_raw", "adc_raw_to_current", 1.25 * 4.096 / 2**18 / (2.0 * 48), 18),
    "adc_voltage": ("adc_voltage_to_raw", "adc_raw_to_voltage", 1.25 * 4.096 / 2**18, 18),
    "dac_voltage": ("dac_voltage_to_raw", "dac_raw_to_voltage", 2.5 * 2 / 2**16, 16),
}


@facet(
    "P09",
    "hardware_codes_exhaustive",
    None,
    rule="every digital code of the three converters (2^18 + 2^18 + 2^16) in blocks: code -> "
    "physical value matches the datasheet scale, is monotone and converts back to the code within "
    "one step; non-trivial: every block",
    cases=lambda: [
        {"conv": name, "start": start, "n": 2**14}
        for name, (_, _, _, bits) in HW.items()
        for start in range(0, 2**bits, 2**14)
    ],
)
def p09_hw_codes(case, ctx):
    to_raw, to_si, lsb, bits = HW[case["conv"]]
    to_raw, to_si = getattr(hwd, to_raw), getattr(hwd, to_si)
    last = to_si(case["start"] - 1) if case["start"] > 0 else -1.0
    for raw in range(case["start"], case["start"] + case["n"]):
        si = to_si(raw)
        if abs(si - raw * lsb) > 1e-12:
            ctx.fail(f"{case['conv']} code {raw} -> {si!r}, datasheet {raw * lsb!r}")
        if si <= last:
            ctx.fail(f"{case['conv']} is not monotone at code {raw}")
        last = si
        back = to_raw(si)
        mid = to_raw(si + 0.5 * lsb)
        if back not in (raw, raw - 1) or mid != raw:
            ctx.fail(f"{case['conv']} code {raw} -> {si!r} -> {back} (center {mid})")
        if to_si(raw, limited=False) != si or to_raw(si + 0.5 * lsb, limited=False) != raw:
            ctx.fail(f"{case['conv']} limited / unlimited differ at code {raw}")
    ctx.nontrivial()


@facet(
    "P09",
    "hardware_limits",
    lambda: st.fixed_dictionaries(
        {"conv": st.sampled_from(sorted(HW)), "si": floats(-20, 20), "raw": st.integers(-(2**20), 2**20), "si2": floats(-20, 20)}
    ),
    quick=800,
    thorough=20000,
    rule="physical values and codes in- and outside of the range: limited conversion stays in range "
    "and equals the clamped unlimited one, both are monotone; non-trivial: outside of range",
)
def p09_hw_limits(case, ctx):
    to_raw, to_si, lsb, bits = HW[case["conv"]]
    to_raw, to_si = getattr(hwd, to_raw), getattr(hwd, to_si)
    top = 2**bits - 1
    for val in (case["si"], case["si2"], case["si"] * 1e-3):
        lim, free = to_raw(val), to_raw(val, limited=False)
        ctx.check(isinstance(lim, int) and 0 <= lim <= top, f"code {lim} of {val} out of range")
        ctx.eq(lim, min(max(free, 0), top), f"limited code of {val}")
        ctx.check(abs(free - val / lsb) <= 1.0 + 1e-9 * abs(free), f"code {free} of {val}, expected {val / lsb}")
    lo, hi = sorted((case["si"], case["si2"]))
    ctx.check(to_raw(lo) <= to_raw(hi), "not monotone")
    raw = case["raw"]
    ctx.close(to_si(raw), min(max(raw, 0), top) * lsb, "limited value", rel=1e-12)
    ctx.close(to_si(raw, limited=False), raw * lsb, "unlimited value", rel=1e-12)
    ctx.nontrivial(not (0 <= case["si"] <= top * lsb) or not 0 <= raw <= top)


@facet(
    "P09",
    "defaults_match_hardware",
    lambda: st.fixed_dictionaries({"frac": floats(0.001, 0.999), "field": st.sampled_from(HRV + EMU)}),
    quick=300,
    thorough=3000,
    rule="default calibration of every channel agrees with the hardware definition over the range; "
    "non-trivial: every case",
)
def p09_defaults(case, ctx):
    name = case["field"]
    cal = (CalibrationHarvester() if name in HRV else CalibrationEmulator())[name]
    conv = "dac_voltage" if name.startswith("dac") else ("adc_voltage" if "_V_" in name else "adc_current")
    to_raw, to_si, lsb, bits = HW[conv]
    top = 2**bits - 1
    si = case["frac"] * top * lsb
    raw = getattr(hwd, to_raw)(si)
    ctx.check(abs(cal.si_to_raw(si) - raw) <= 2 + 1e-3 * raw, f"{name}: {cal.si_to_raw(si)} vs {raw}")
    ctx.close(cal.raw_to_si(raw), getattr(hwd, to_si)(raw), f"{name} si", rel=1e-3)
    ctx.nontrivial()


# ---------------------------------------------------------------- P10 containers
def cals_st(names: list[str], lo: float = -12, hi: float = 2) -> st.SearchStrategy:
    return st.fixed_dictionaries({n: pair_st(lo, hi) for n in names})


@facet(
    "P10",
    "eeprom_round_trip",
    lambda: st.fixed_dictionaries(
        {
            "hrv": cals_st(HRV, -15, 6),
            "emu": cals_st(EMU, -15, 6),
            "cape": st.one_of(
                st.none(),
                st.fixed_dictionaries({"serial_number": st.text("0123456789AB", min_size=1, max_size=12)}),
            ),
            "units": st.booleans(),
        }
    ),
    quick=500,
    thorough=10000,
    rule="calibration of all 8 channels serialized to bytes and back (all gains / offsets exact, "
    "fixed length), truncated / extended / non-positive-gain data refused; non-trivial: every case",
)
def p10_eeprom(case, ctx):
    unit = {"unit": "V"} if case["units"] else {}
    cape = CapeData(**case["cape"]) if case["cape"] else None
    cal = CalibrationCape(
        cape=cape,
        host="sheep",
        harvester=CalibrationHarvester(**{k: {**v, **unit} for k, v in case["hrv"].items()}),
        emulator=CalibrationEmulator(**{k: {**v, **unit} for k, v in case["emu"].items()}),
    )
    data = cal.to_bytestr()
    want = []
    for grp, names in (("hrv", HRV), ("emu", EMU)):
        for name in names:
            want += [case[grp][name]["gain"], case[grp][name]["offset"]]
    ctx.eq(len(data), 8 * len(want), "length of bytes")
    ctx.eq(sorted(struct.unpack(f">{len(want)}d", data)), sorted(float(w) for w in want), "stored doubles (big endian)")
    back = CalibrationCape.from_bytestr(data, cape)
    ctx.eq(back.cape, cape, "cape-info")
    for grp, names in (("harvester", HRV), ("emulator", EMU)):
        for name in names:
            got, org = back[grp][name], cal[grp][name]
            ctx.eq((got.gain, got.offset), (org.gain, org.offset), f"{grp}.{name}")
    ctx.eq(back.to_bytestr(), data, "serialized again")
    ctx.raises(lambda: CalibrationCape.from_bytestr(data[:-1]), "truncated data")
    ctx.raises(lambda: CalibrationCape.from_bytestr(data + b"\0" * 8), "extended data")
    ctx.raises(lambda: CalibrationCape.from_bytestr(b"\0" * len(data)), "erased eeprom (zeros)")
    ctx.raises(lambda: CalibrationCape.from_bytestr(b"\xff" * len(data)), "erased eeprom (ones)")
    ctx.nontrivial()


CAPE_MAX = {"eeprom_revision": 2, "board_name": 32, "version": 4, "manufacturer": 16, "part_number": 16, "serial_number": 12, "cal_date": 12}


@facet(
    "P10",
    "cape_info",
    lambda: st.fixed_dictionaries(
        {
            "texts": st.fixed_dictionaries({k: st.integers(1, n).map(lambda x: "x" * x) | st.just("m" * n) for k, n in CAPE_MAX.items()}),
            "header": st.binary(min_size=1, max_size=4).map(bytes.hex),
            "long": st.sampled_from([*CAPE_MAX, "header"]),
        }
    ),
    quick=100,
    thorough=2000,
    rule="description of capes with texts up to the size of the eeprom-format is kept, longer ones are refused, a missing serial is refused, "
    "default calibrations name the unit of each channel; non-trivial: every case",
)
def p10_cape_info(case, ctx):
    par = {**case["texts"], "header": bytes.fromhex(case["header"])}
    cape = CapeData(**par)
    for key, val in par.items():
        ctx.eq(cape[key], val, key)
    cal = CalibrationCape(cape=cape)
    ctx.eq(CalibrationCape.from_bytestr(cal.to_bytestr(), cape), cal, "calibration with description of the cape")
    key = case["long"]
    bad = {**par, key: b"12345" if key == "header" else "y" * (CAPE_MAX[key] + 1)}
    ctx.raises(lambda: CapeData(**bad), f"{key} that exceeds the eeprom", (ValueError,))
    ctx.raises(lambda: CapeData(**{k: v for k, v in par.items() if k != "serial_number"}), "missing serial", (ValueError,))
    for dev, names in ((cal.harvester, HRV), (cal.emulator, EMU)):
        for name in names:
            ctx.eq(dev[name].unit, "V" if "_V_" in name else "A", f"unit of {name}")
    ser = CalibrationSeries()
    ctx.eq([ser.time.unit, ser.voltage.unit, ser.current.unit], ["s", "V", "A"], "units of a recording")
    ctx.nontrivial()


@facet(
    "P10",
    "channel_selection",
    lambda: st.fixed_dictionaries({"hrv": cals_st(HRV), "emu": cals_st(EMU)}),
    quick=300,
    thorough=5000,
    rule="deriving the calibration of a recording from a device calibration takes the logged "
    "channels of harvester or the chosen target port; non-trivial: every case",
)
def p10_channels(case, ctx):
    hrv, emu = CalibrationHarvester(**case["hrv"]), CalibrationEmulator(**case["emu"])
    default_t = CalibrationSeries().time
    for ser, volt, curr in (
        (CalibrationSeries.from_cal(hrv), hrv.adc_V_Sense, hrv.adc_C_Hrv),
        (CalibrationSeries.from_cal(emu), emu.dac_V_A, emu.adc_C_A),
        (CalibrationSeries.from_cal(emu, emu_port_a=True), emu.dac_V_A, emu.adc_C_A),
        (CalibrationSeries.from_cal(emu, emu_port_a=False), emu.dac_V_B, emu.adc_C_B),
    ):
        ctx.eq((ser.voltage.gain, ser.voltage.offset), (volt.gain, volt.offset), "voltage")
        ctx.eq((ser.current.gain, ser.current.offset), (curr.gain, curr.offset), "current")
        ctx.eq(ser.time, default_t, "time")
    ctx.nontrivial()


@facet(
    "P10",
    "pru_export",
    lambda: st.fixed_dictionaries({"hrv": cals_st(HRV, -10, 1), "emu": cals_st(EMU, -10, 1), "scale": st.sampled_from([1, 1, 1, 300])}),
    quick=500,
    thorough=10000,
    rule="export of device calibrations to the realtime unit: documented fixed-point scaling within "
    "half a step, either every value fits its 32 bit container or the export is refused; "
    "non-trivial: accepted exports",
)
def p10_export(case, ctx):
    for names, cls, grp, chans in (
        (HRV, CalibrationHarvester, "hrv", ("adc_C_Hrv", "adc_V_Sense", "dac_V_Hrv")),
        (EMU, CalibrationEmulator, "emu", ("adc_C_A", None, "dac_V_A")),
    ):
        vals = {k: {"gain": v["gain"], "offset": v["offset"] * case["scale"]} for k, v in case[grp].items()}
        cal = cls(**vals)
        cur, vol, dac = chans
        want = {
            "adc_current_gain": 1e9 * 2**8 * vals[cur]["gain"],
            "adc_current_offset": 1e9 * vals[cur]["offset"],
            "adc_voltage_gain": 1e6 * 2**8 * (vals[vol]["gain"] if vol else 1),
            "adc_voltage_offset": 1e6 * (vals[vol]["offset"] if vol else 0),
            "dac_voltage_gain": 2**20 / (1e6 * vals[dac]["gain"]),
            "dac_voltage_offset": 1e6 * vals[dac]["offset"],
        }
        fits, edge = True, False
        for key, val in want.items():
            lo, hi = (0, 2**32) if "gain" in key else (-(2**31), 2**31)
            fits &= lo <= round(val) < hi
            edge |= min(abs(val - lo + 0), abs(val - hi)) < 1 and "gain" not in key
        try:
            got = cal.export_for_sysfs()
        except ValueError:
            ctx.check(not fits or edge, f"export refused, although all values fit: {want}")
            ctx.label("refused")
            continue
        ctx.check(fits or edge, f"values out of range got exported: {got}")
        ctx.eq(set(got), set(want), "exported keys")
        for key, val in want.items():
            ctx.check(
                isinstance(got[key], int) and abs(got[key] - val) <= 0.5 + 1e-9 * abs(val),
                f"{key} = {got[key]!r}, expected {val!r}",
            )
        ctx.nontrivial()
        ctx.label("exported")


@facet(
    "P10",
    "fit_of_measurements",
    lambda: st.fixed_dictionaries(
        {
            "truth": st.fixed_dictionaries({n: pair_st(-9, 0) for n in HRV + EMU}),
            "points": st.lists(st.integers(1, 2**18), min_size=2, max_size=12, unique=True).filter(
                lambda p: max(p) - min(p) >= 50
            ),
            "noise": floats(0, 1e-4),
            "corrupt": st.sampled_from([None, None, *HRV, *EMU]),
            # some points are off (as part of the span)
            "scatter": st.one_of(st.just(0.0), floats(0.005, 0.3)),
            "parts": st.sampled_from(["both", "hrv", "emu"]),
            "spec": spec_st(),
        }
    ),
    quick=400,
    thorough=8000,
    shards=2,
    rule="measurement points on a line (2-12 points, noise up to 1e-4 of span) of all channels; the "
    "fitted calibration recovers gain and offset per channel, uncorrelated measurements are "
    "refused, as is a linear model explaining less than 99.85 % of the variance; non-trivial: noise or corruption present",
)
def p10_fit(case, ctx):
    pts = np.array(sorted(case["points"]), dtype=float)
    span = pts[-1] - pts[0]
    noise = (series(case["spec"], len(pts), hi=2000).astype(float) / 1000 - 1) * case["noise"]
    meas = {}
    for name, tru in case["truth"].items():
        ref = pts * tru["gain"] + tru["offset"] + noise * span * tru["gain"]
        if case["corrupt"] == name and case.get("scatter"):
            ref = ref + np.where(np.arange(len(pts)) % 2, -1, 1) * case["scatter"] * span * tru["gain"]
            # part of the variance that a linear model explains
            quality = float(np.corrcoef(pts, ref)[0, 1]) ** 2
            line = np.polyfit(pts, ref, 1)
        elif case["corrupt"] == name and len(pts) >= 4:
            # no linear relation at all: alternate between both ends
            ref = np.where(np.arange(len(pts)) % 2, ref[0], ref[-1])
        meas[name] = [{"shepherd_raw": float(x), "reference_si": float(y)} for x, y in zip(pts, ref)]
    cape = CalMeasurementCape(
        host="sheep0",
        harvester=CalMeasurementHarvester(**{k: meas[k] for k in HRV}) if case["parts"] != "emu" else None,
        emulator=CalMeasurementEmulator(**{k: meas[k] for k in EMU}) if case["parts"] != "hrv" else None,
    )
    used = (HRV if case["parts"] != "emu" else []) + (EMU if case["parts"] != "hrv" else [])
    scattered = case["corrupt"] if case.get("scatter") and case["corrupt"] in used else None
    if scattered and (quality < 0.9985 or line[0] <= 0):
        ctx.raises(cape.to_cal, f"scattered measurement of {scattered} (r²={quality})", (ValueError,))
        ctx.label("scattered")
        ctx.nontrivial()
        return
    if scattered and quality < 0.9995:
        ctx.label("undecided")
        return
    if case["corrupt"] in used and not scattered and len(pts) >= 4:
        ctx.raises(cape.to_cal, f"uncorrelated measurement of {case['corrupt']}", (ValueError,))
        ctx.label("uncorrelated")
        ctx.nontrivial()
        return
    cal = cape.to_cal()
    ctx.eq(cal.host, "sheep0", "host")
    for grp, names in (("harvester", HRV), ("emulator", EMU)):
        for name in names:
            got = cal[grp][name]
            if name in used:
                tru = case["truth"][name]
                # compare on the measured interval, not the (ill-conditioned) coefficients
                tol = (4 * case["noise"] + 1e-9) * span * tru["gain"] + 1e-9 * (abs(tru["offset"]) + pts[-1] * tru["gain"])
                if name == scattered:
                    tru = {"gain": float(line[0]), "offset": float(line[1])}
                    tol = 1e-7 * (abs(tru["offset"]) + pts[-1] * tru["gain"])
                for x in (pts[0], pts[-1]):
                    ctx.close(got.raw_to_si(x), x * tru["gain"] + tru["offset"], f"{name} at {x}", rel=0, abs_=tol)
            else:
                default = (CalibrationHarvester() if grp == "harvester" else CalibrationEmulator())[name]
                ctx.eq((got.gain, got.offset), (default.gain, default.offset), f"unmeasured {name}")
    ctx.nontrivial(case["noise"] > 0)
