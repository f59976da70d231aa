"""P01-P06: recordings - writing, reopening, reading, validating, summarizing."""

from __future__ import annotations

import copy
import gc
import itertools
from fractions import Fraction
from pathlib import Path

import h5py
import numpy as np
import yaml
from hypothesis import strategies as st

from harness.core import facet
from harness.util import T0
from harness.util import add_gpio
from harness.util import floats
from harness.util import h5_dump
from harness.util import log_floats
from harness.util import make_h5
from harness.util import ns_times
from harness.util import series
from harness.util import si_series
from harness.util import spec_st
from shepherd_core import CalibrationEmulator
from shepherd_core import CalibrationHarvester
from shepherd_core import CalibrationPair
from shepherd_core import CalibrationSeries
from shepherd_core import Compression
from shepherd_core import Reader
from shepherd_core import Writer
from shepherd_core.data_models import EnergyDType

BUF = 10_000
STEP = 10_000  # ns
COMP = {
    "lzf": Compression.lzf,
    "gzip1": Compression.gzip1,
    "null": Compression.null,
    "none": None,
}


# ---------------------------------------------------------------- P01 raw round trip
def n_samples_st(big: int = 24_000) -> st.SearchStrategy:
    return st.one_of(
        st.integers(0, 40),
        st.integers(BUF - 3, BUF + 3),
        st.sampled_from([1, 2, BUF // 2, BUF - 1, BUF, 2 * BUF]),
        st.integers(0, big),
    )


def append_st() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "n": n_samples_st(),
            "dv": st.sampled_from([0, 0, 0, 1, 7]),  # surplus voltage samples
            "dc": st.sampled_from([0, 0, 0, 1, 5]),
            "dt": st.sampled_from([0, 0, 0, 3]),
            "form": st.sampled_from(["array", "int", "float", "array", "bad"]),
            "gap": st.sampled_from([0, 0, 0, 1, 50, 10**9, 3 * 10**9]),
            "dtype": st.sampled_from(["u4", "u4", "u8", "i8"]),
            "volt": spec_st(),
            "curr": spec_st(),
        }
    )


def history_st() -> st.SearchStrategy:
    session = st.fixed_dictionaries(
        {
            "open": st.sampled_from(["modify", "modify", "modify", "overwrite"]),
            "comp": st.sampled_from(sorted(COMP)),
            "appends": st.lists(append_st(), min_size=0, max_size=4),
            "fail": st.sampled_from([False, False, False, True]),
            "step": st.one_of(
                st.sampled_from([STEP, STEP, STEP, 20_000, 1_000_000]),
                st.sampled_from([3_333, 7_000, 9_999, 12_345, 99_999, 1_000_001]),
                st.integers(1_000, 10**7),
            ),
        }
    )
    return st.fixed_dictionaries(
        {
            # today, an unset clock and the upper half of the 64 bit range
            "t0": st.sampled_from([T0, T0, T0 + 123_456, 10**9, 2**63 - 50_000, 2**64 - 10**16]),
            "sessions": st.lists(session, min_size=1, max_size=4),
        }
    )


class UserError(Exception):
    pass


@facet(
    "P01",
    "append_history",
    history_st,
    quick=320,
    thorough=8000,
    shards=4,
    rule="histories of 1-4 writer sessions (create / reopen / overwrite, 4 compressions, optional "
    "exception inside the with-block) with 0-4 appends of 0-24k samples each (scalar or array "
    "timestamps, unequal lengths, gaps, rejected timestamps); non-trivial: >=2 sessions or a "
    "trimmed buffer, and at least one sample survives",
)
def p01_append_history(case, ctx):
    path = ctx.tmp / "rec.h5"
    m_t = np.zeros(0, "u8")
    m_v = np.zeros(0, "u4")
    m_c = np.zeros(0, "u4")
    trimmed = False
    next_t = case["t0"]
    for i_ses, ses in enumerate(case["sessions"]):
        first = i_ses == 0
        overwrite = ses["open"] == "overwrite" and not first
        if overwrite or first:
            m_t, m_v, m_c = m_t[:0], m_v[:0], m_c[:0]
            step = ses["step"]
            next_t = case["t0"]
        # interval which the writer has to assume for scalar timestamps
        if len(m_t) >= 2:
            diffs = np.unique(np.diff(m_t.astype("i8")))
            scalar_step = int(diffs[0]) if len(diffs) == 1 else None
        else:
            scalar_step = STEP
        args = {"compression": COMP[ses["comp"]], "verbose": None}
        if not first:
            args["modify_existing" if not overwrite else "force_overwrite"] = True
        try:
            with Writer(path, **args) as wtr:
                ctx.eq(wtr.ds_voltage.shape[0], len(m_v), "samples after opening")
                for app in ses["appends"]:
                    n = app["n"]
                    volt = series(app["volt"], n + app["dv"], dtype=app["dtype"])
                    curr = series(app["curr"], n + app["dc"], dtype=app["dtype"])
                    form = app["form"]
                    if form == "bad":
                        ctx.raises(
                            lambda v=volt, c=curr: wtr.append_iv_data_raw(None, v, c),
                            "append without usable timestamp",
                        )
                        continue
                    n_new = min(volt.size, curr.size)
                    t_start = next_t + app["gap"]
                    if form in {"int", "float"} and scalar_step is None:
                        form = "array"
                    if form == "float" and float(t_start) != t_start:
                        form = "int"
                    if form == "array":
                        times = ns_times(n + app["dt"], t_start, step)
                        n_new = min(n_new, times.size)
                        arg = times
                    else:
                        times = ns_times(n_new, t_start, scalar_step)
                        arg = int(t_start) if form == "int" else float(t_start)
                    v_in, c_in = volt.copy(), curr.copy()
                    wtr.append_iv_data_raw(arg, volt, curr)
                    ctx.check(
                        np.array_equal(v_in, volt) and np.array_equal(c_in, curr),
                        "append altered the buffers of the caller",
                    )
                    m_t = np.concatenate((m_t, times[:n_new]))
                    m_v = np.concatenate((m_v, volt[:n_new].astype("u4")))
                    m_c = np.concatenate((m_c, curr[:n_new].astype("u4")))
                    if n_new:
                        next_t = int(m_t[-1]) + step
                    ctx.label(f"ts={form}")
                if ses["fail"]:
                    raise UserError
        except UserError:
            ctx.label("exception in session")
        else:
            ctx.check(not ses["fail"], "exception inside the with-block was swallowed")

        # expected length after alignment
        n = len(m_t)
        keep = {n, (n // BUF) * BUF}
        if n >= 2 and m_t[-1] > m_t[0]:
            rate = Fraction(n - 1) * 10**9 / (int(m_t[-1]) - int(m_t[0]))
            if abs(rate - 100_000) < Fraction(499, 1000):
                keep = {(n // BUF) * BUF}
            elif abs(rate - 100_000) > Fraction(501, 1000):
                keep = {n}
                ctx.label("other samplerate")
        with h5py.File(path, "r") as h5f:
            g_t, g_v, g_c = (h5f["data"][k][...] for k in ("time", "voltage", "current"))
        ctx.check(
            len(g_t) == len(g_v) == len(g_c),
            f"datasets differ in length: {len(g_t)}, {len(g_v)}, {len(g_c)}",
        )
        ctx.check(len(g_v) in keep, f"{len(g_v)} samples kept of {n}, expected one of {sorted(keep)}")
        if len(g_v) < n:
            trimmed = True
            ctx.label("trailing buffer dropped")
        m_t, m_v, m_c = m_t[: len(g_v)], m_v[: len(g_v)], m_c[: len(g_v)]
        for name, got, want in (("time", g_t, m_t), ("voltage", g_v, m_v), ("current", g_c, m_c)):
            if not np.array_equal(got, want):
                idx = int(np.argmax(got != want))
                ctx.fail(f"{name}[{idx}] = {got[idx]}, expected {want[idx]} (session {i_ses})")
    # the same via Reader
    with Reader(path, verbose=None) as rdr:
        bufs = list(rdr.read_buffers(is_raw=True))
        n_buf = len(m_v) // BUF
        ctx.eq(len(bufs), n_buf, "buffers delivered by reader")
        for i, (b_t, b_v, b_c) in enumerate(bufs):
            sel = slice(i * BUF, (i + 1) * BUF)
            ctx.check(
                np.array_equal(b_t, m_t[sel])
                and np.array_equal(b_v, m_v[sel])
                and np.array_equal(b_c, m_c[sel]),
                f"buffer {i} of reader differs from what was written",
            )
    ctx.label(f"sessions={len(case['sessions'])}")
    ctx.nontrivial((len(case["sessions"]) > 1 or trimmed) and len(m_v) > 0)


@facet(
    "P01",
    "scalar_continuation",
    lambda: st.fixed_dictionaries(
        {
            "n": st.one_of(st.integers(2, 400), st.sampled_from([BUF, 2 * BUF]), st.integers(2, 2 * BUF)),
            "step": st.one_of(st.sampled_from([STEP, 20_000, 1_000_000, 12_345, 1_000_001]), st.integers(1_000, 10**7), st.integers(1_000, 10**9)),
            "t0": st.sampled_from([0, 10**9, T0, T0 + 123_456]),
            "adds": st.lists(st.tuples(st.integers(1, 3000), st.booleans(), st.booleans()), min_size=1, max_size=3),
        }
    ),
    quick=250,
    thorough=8000,
    shards=2,
    rule="recordings with any regular sample interval are re-opened 1-3 times and continued by appends that only give the start "
    "(integer or float); all timestamps equal t0 + i * interval; non-trivial: interval differs from the default",
)
def p01_scalar_continuation(case, ctx):
    path = ctx.tmp / "cont.h5"
    n, step, t0 = case["n"], case["step"], case["t0"]
    vals = series({"kind": "rand", "seed": 5}, n)
    with Writer(path, verbose=None) as wtr:
        wtr.append_iv_data_raw(ns_times(n, t0, step), vals, vals)
    with h5py.File(path, "r") as h5f:
        total = h5f["data"]["time"].shape[0]
    if total < 2:
        return  # only the trimmed rest is left, no interval is known
    for num, as_float, fresh in case["adds"]:
        t_next = t0 + total * step
        add = series({"kind": "rand", "seed": num}, num)
        with Writer(path, modify_existing=True, verbose=None) as wtr:
            if fresh:
                ctx.eq(wtr.sample_interval_ns, step, "sample interval of the re-opened recording", key="interval")
            exact = as_float and float(t_next) == t_next
            wtr.append_iv_data_raw(float(t_next) if exact else t_next, add, add)
            got = wtr.ds_time[...]
        want = ns_times(total + num, t0, step)
        if not np.array_equal(got, want):
            idx = int(np.argmax(got != want)) if got.shape == want.shape else -1
            ctx.fail(f"time[{idx}] = {got[idx]}, expected {want[idx]} with an interval of {step} ns")
        with h5py.File(path, "r") as h5f:
            kept = h5f["data"]["time"].shape[0]
        ctx.check(kept in {total + num, (total + num) // BUF * BUF}, f"{kept} samples kept of {total + num}")
        total = kept
        if total < 2:
            return
    ctx.nontrivial(step != STEP)


# ---------------------------------------------------------------- P02 SI & metadata
def cal_st() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "vg": log_floats(-9.5, -6),
            "vo": st.one_of(st.just(0.0), floats(-2, 2)),
            "cg": log_floats(-12, -7),
            "co": st.one_of(st.just(0.0), floats(-0.01, 0.01)),
        }
    )


def to_series(cal: dict) -> CalibrationSeries:
    return CalibrationSeries(
        voltage=CalibrationPair(gain=cal["vg"], offset=cal["vo"]),
        current=CalibrationPair(gain=cal["cg"], offset=cal["co"]),
        time=CalibrationPair(gain=cal.get("tg", 1e-9), offset=cal.get("to", 0.0)),
    )


@facet(
    "P02",
    "si_round_trip",
    lambda: st.fixed_dictionaries(
        {
            "cal": cal_st(),
            "n": st.integers(1, 400),
            "blocks": st.integers(1, 3),
            "ts": st.sampled_from(["scalar", "array"]),
            "v_lo": floats(-0.2, 0.5),
            "v_hi": floats(0.5, 1.0),
            "c_lo": floats(-0.2, 0.5),
            "c_hi": floats(0.5, 1.0),
            "volt": spec_st(),
            "curr": spec_st(),
        }
    ),
    quick=400,
    thorough=10000,
    shards=2,
    rule="generated gains/offsets and physical samples spread over (and below) the representable "
    "range, written as SI and read back as SI in 1-3 blocks; non-trivial: samples in range exist "
    "and an offset is not 0",
)
def p02_si_round_trip(case, ctx):
    cal = case["cal"]
    path = ctx.tmp / "si.h5"
    span_v, span_c = cal["vg"] * (2**32 - 1), cal["cg"] * (2**32 - 1)
    n = case["n"]
    reps = case["blocks"]
    parts_v, parts_c = [], []
    t_start = 1_700_000_000.5
    with Writer(path, cal_data=to_series(cal), verbose=None) as wtr:
        wtr.samples_per_buffer = 1  # instance-level: no trimming, content is the topic here
        for i in range(reps):
            sv, sc = dict(case["volt"]), dict(case["curr"])
            sv["seed"] += i
            sc["seed"] += 3 * i
            volt = cal["vo"] + span_v * si_series(sv, n, case["v_lo"], case["v_hi"])
            curr = cal["co"] + span_c * si_series(sc, n, case["c_lo"], case["c_hi"])
            t_now = t_start + i * n * 1e-5
            ts = t_now if case["ts"] == "scalar" else t_now + np.arange(n) * 1e-5
            v_in, c_in = volt.copy(), curr.copy()
            ts_in = np.copy(ts)
            wtr.append_iv_data_si(ts, volt, curr)
            ctx.check(
                np.array_equal(v_in, volt) and np.array_equal(c_in, curr) and np.array_equal(ts_in, ts),
                "append altered the buffers of the caller",
            )
            parts_v.append(volt)
            parts_c.append(curr)
    volt, curr = np.concatenate(parts_v), np.concatenate(parts_c)
    times = t_start + np.arange(n * reps) * 1e-5
    with Reader(path, verbose=None) as rdr:
        bufs = list(rdr.read_buffers(n_samples_per_buffer=n))
        g_t, g_v, g_c = (np.concatenate([b[i] for b in bufs]) for i in range(3))
    for name, got, want, gain, off in (
        ("voltage", g_v, volt, cal["vg"], cal["vo"]),
        ("current", g_c, curr, cal["cg"], cal["co"]),
    ):
        ctx.eq(len(got), len(want), f"number of {name}-samples")
        clipped = np.maximum(want, off)  # raw is unsigned
        tol = 0.5 * gain * (1 + 1e-6) + 1e-12 * (abs(off) + np.max(np.abs(want)))
        err = np.abs(got - clipped)
        idx = int(np.argmax(err))
        ctx.check(
            err[idx] <= tol,
            lambda n=name, g=got, w=want, i=idx, t=tol: f"{n}[{i}]: wrote {w[i]!r}, read {g[i]!r} (tol {t:.3g})",
        )
    err_t = np.abs(g_t - times)
    ctx.check(np.max(err_t) <= 2e-6, f"timestamps are off by up to {np.max(err_t)} s")
    in_range = np.any(volt > cal["vo"]) and np.any(curr > cal["co"])
    if np.any(volt < cal["vo"]):
        ctx.label("clipped below range")
    ctx.nontrivial(in_range and (cal["vo"] != 0 or cal["co"] != 0))


CONFIG_LEAF = st.one_of(
    st.integers(-(2**31), 2**31),
    floats(-1e6, 1e6),
    st.booleans(),
    st.none(),
    st.text("abcXYZ 0123-:#'\"\n{}é", max_size=8),
)
CONFIG = st.dictionaries(
    st.text("abcdef_", min_size=1, max_size=6),
    st.one_of(
        CONFIG_LEAF,
        st.lists(CONFIG_LEAF, max_size=3),
        st.dictionaries(st.text("abc", min_size=1, max_size=3), CONFIG_LEAF, max_size=3),
    ),
    max_size=4,
)


def meta_st() -> st.SearchStrategy:
    ses = st.fixed_dictionaries(
        {
            "mode": st.sampled_from([None, None, "harvester", "emulator", "emulator", "magic"]),
            "dtype": st.sampled_from(
                [None, None, "ivsample", "ivcurve", "isc_voc", "E:ivsample", "E:ivcurve", "E:isc_voc"]
            ),
            "window": st.sampled_from([None, None, 0, 1, 250, 2**20]),
            "cal": st.one_of(
                st.none(),
                st.tuples(st.sampled_from(["series", "hrv", "emu"]), cal_st()).map(list),
                st.tuples(
                    st.just("series"), cal_st(), st.fixed_dictionaries({"tg": st.sampled_from([1e-9, 1e-6, 4e-9]), "to": st.sampled_from([0.0, -2.5, 1e6])})
                ).map(lambda t: [t[0], {**t[1], **t[2]}]),
            ),
            "host": st.one_of(st.none(), st.text("sheep0123 -äß", min_size=1, max_size=8)),
            "config": st.one_of(st.none(), CONFIG),
            "attr": st.one_of(st.none(), st.integers(-1000, 1000), st.text("xyz", max_size=4)),
            "fresh": st.sampled_from([False, False, False, True]),
        }
    )
    return st.fixed_dictionaries({"sessions": st.lists(ses, min_size=1, max_size=4)})


def description(path) -> dict:
    """All attributes and samples of a file."""
    out = {}

    def visit(name, node):
        out[name] = {key: str(val) for key, val in node.attrs.items()}
        if isinstance(node, h5py.Dataset):
            out[name]["_"] = node[...].tolist()

    with h5py.File(path, "r") as h5f:
        visit("/", h5f)
        h5f.visititems(visit)
    return out


ALLOWED = {"harvester": {"ivsample", "ivcurve", "isc_voc"}, "emulator": {"ivsample"}}


@facet(
    "P02",
    "description_history",
    meta_st,
    quick=500,
    thorough=10000,
    shards=2,
    rule="1-4 writer sessions on one file with optional mode / datatype / window / calibration / "
    "hostname / config / attribute, compared with a dictionary model; non-trivial: >=2 accepted "
    "sessions of which one changed something and one kept something",
)
def p02_description(case, ctx):
    path = ctx.tmp / "meta.h5"
    model, stored = None, None
    accepted = refused = 0
    for ses in case["sessions"]:
        fresh = model is None or ses["fresh"]
        base = (
            {
                "mode": "harvester",
                "dtype": "ivsample",
                "window": 0,
                "cal": {"vg": 3e-9, "vo": 0.0, "cg": 250e-12, "co": 0.0},
                "host": "unknown",
                "config": {},
                "attr": None,
            }
            if fresh
            else copy.deepcopy(model)
        )
        args = {"verbose": None}
        if not fresh:
            args["modify_existing"] = True
        elif model is not None:
            args["force_overwrite"] = True
        valid = True
        if ses["mode"] is not None:
            args["mode"] = ses["mode"]
            valid &= ses["mode"] in ALLOWED
            base["mode"] = ses["mode"]
        if ses["dtype"] is not None:
            name = ses["dtype"].removeprefix("E:")
            args["datatype"] = EnergyDType[name] if ses["dtype"].startswith("E:") else name
            base["dtype"] = name
        if ses["window"] is not None:
            args["window_samples"] = ses["window"]
            base["window"] = ses["window"]
        valid = valid and base["dtype"] in ALLOWED[base["mode"]]
        if valid and base["dtype"] == "ivcurve" and base["window"] < 1:
            if ses["dtype"] is None:
                return  # not explicitly requested -> writer does not complain, not claimed
            valid = False
        if ses["cal"] is not None:
            kind, cal = ses["cal"]
            base["cal"] = cal
            pair_v = CalibrationPair(gain=cal["vg"], offset=cal["vo"])
            pair_c = CalibrationPair(gain=cal["cg"], offset=cal["co"])
            other = CalibrationPair(gain=0.125, offset=0.25)
            if kind == "series":
                args["cal_data"] = to_series(cal)
            elif kind == "hrv":
                args["cal_data"] = CalibrationHarvester(
                    adc_V_Sense=pair_v, adc_C_Hrv=pair_c, dac_V_Hrv=other, dac_V_Sim=other
                )
            else:
                args["cal_data"] = CalibrationEmulator(
                    dac_V_A=pair_v, adc_C_A=pair_c, dac_V_B=other, adc_C_B=other
                )
        if not valid:
            xcp = ctx.raises(lambda a=args: Writer(path, **a), "unsupported combination")
            ctx.label("rejected")
            del xcp
            gc.collect()
            if model is None or ses["fresh"]:
                return
            # a refused session does not alter the recording
            ctx.eq(description(path), stored, "file after refused session", key="refused-altered")
            refused += 1
            continue
        with Writer(path, **args) as wtr:
            # kept from last session
            ctx.eq(wtr.get_hostname(), base["host"], "hostname in running session")
            ctx.eq(wtr.get_config(), base["config"], "config in running session")
            if ses["host"] is not None:
                wtr.store_hostname(ses["host"])
                base["host"] = ses["host"]
            if ses["config"] is not None:
                wtr.store_config(ses["config"])
                base["config"] = ses["config"]
            if ses["attr"] is not None:
                wtr["custom"] = ses["attr"]
                base["attr"] = ses["attr"]
            ctx.eq(wtr.get_hostname(), base["host"], "hostname in running session")
            ctx.eq(wtr.get_config(), base["config"], "config in running session")
            ctx.eq(wtr.get_mode(), base["mode"], "mode in running session")
            ctx.eq(wtr.get_window_samples(), base["window"], "window in running session")
        model = base
        accepted += 1
        stored = description(path)
        with Reader(path, verbose=None) as rdr:
            ctx.check(rdr.is_valid(), "a freshly written file is reported as faulty")
            ctx.eq(rdr.get_mode(), model["mode"], "mode")
            ctx.check(rdr.get_datatype() == EnergyDType[model["dtype"]], "datatype differs")
            ctx.eq(rdr.get_window_samples(), model["window"], "window_samples")
            ctx.eq(rdr.get_hostname(), model["host"], "hostname")
            ctx.eq(rdr.get_config(), model["config"], "config", key="config-lost")
            cal = rdr.get_calibration_data()
            got = {
                "vg": cal.voltage.gain,
                "vo": cal.voltage.offset,
                "cg": cal.current.gain,
                "co": cal.current.offset,
                "tg": cal.time.gain,
                "to": cal.time.offset,
            }
            for key, val in {"tg": 1e-9, "to": 0.0, **model["cal"]}.items():
                ctx.close(got[key], val, f"calibration {key}", rel=1e-12)
            if model["attr"] is not None:
                ctx.eq(rdr["custom"], model["attr"], "custom attribute")
            else:
                ctx.raises(lambda: rdr["custom"], "unknown key", (KeyError,))
            hrv = rdr.get_hrv_config()
            ctx.check(
                hrv["datatype"] == EnergyDType[model["dtype"]]
                and hrv["window_samples"] == model["window"],
                "harvester-config differs from stored values",
            )
    changed = any(s[k] is not None for s in case["sessions"] for k in ("mode", "dtype", "window", "cal", "host"))
    ctx.nontrivial((accepted >= 2 and changed) or refused > 0)


@facet(
    "P02",
    "voltage_step",
    lambda: st.fixed_dictionaries(
        {
            "gain": log_floats(-9, -6),
            "offset": st.sampled_from([0.0, 0.0, 0.1, -0.2]),
            "step_raw": st.integers(1, 200_000),
            "window": st.integers(4, 60),
            "hold": st.integers(1, 3),
            # static voltage until harvester is running
            "idle": st.sampled_from([0, 0, 1, 150, 600, 1200]),
            "rising": st.booleans(),
            "config_mV": st.one_of(st.none(), floats(0.1, 500)),
        }
    ),
    quick=200,
    thorough=3000,
    rule="iv-curve recordings made of repeated linear ramps (rising / falling, held voltages), the "
    "step has to be reported in volts; non-trivial: derived from the samples",
)
def p02_voltage_step(case, ctx):
    path = ctx.tmp / "curve.h5"
    win = case["window"]
    ramp = np.repeat(np.arange(win) * case["step_raw"], case["hold"])
    if not case["rising"]:
        ramp = ramp[::-1]
    volt = np.tile(ramp, max(2, 2400 // len(ramp)))
    volt = np.concatenate((np.full(case["idle"], volt[0]), volt))
    make_h5(
        path,
        ns_times(len(volt)),
        volt,
        volt,
        datatype="ivcurve",
        window=len(ramp),
        cal={"voltage": (case["gain"], case["offset"])},
    )
    want = case["gain"] * case["step_raw"]
    if case["config_mV"] is not None:
        with Writer(path, modify_existing=True, verbose=None) as wtr:
            wtr.samplerate_sps = 1
            wtr.store_config({"virtual_harvester": {"voltage_step_mV": case["config_mV"]}})
        want = 1e-3 * case["config_mV"]
    with Reader(path, verbose=None) as rdr:
        got = rdr.get_voltage_step()
        ctx.check(got is not None, "no voltage step found", key="voltage-step")
        ctx.close(got or 0.0, want, "voltage step [V]", rel=1e-6, key="voltage-step")
    ctx.nontrivial(case["config_mV"] is None)


# ---------------------------------------------------------------- P03 nothing is overwritten
def clobber_st() -> st.SearchStrategy:
    op = st.fixed_dictionaries(
        {
            "name": st.sampled_from(
                ["a.h5", "a.h5", "a.h5", "b.data.h5", "b.h5", "sub/c.h5", "sub/deep/c.h5", "a.0.h5", "noext", "a.hdf5"]
            ),
            "kind": st.sampled_from(["new", "new", "new", "modify", "force", "dir", "rel"]),
            "n": st.sampled_from([0, BUF]),
        }
    )
    # folders preferably sit on the names that an alternative would use
    folder = st.fixed_dictionaries(
        {
            "name": st.sampled_from(["a.0.h5", "a.0.h5", "a.1.h5", "a.h5", "b.0.h5", "b.data.0.h5", "noext.0", "a.0.hdf5", "sub/c.0.h5"]),
            "kind": st.just("dir"),
            "n": st.just(0),
        }
    )
    # many taken alternatives, foreign files and links to existing files
    crowd = st.fixed_dictionaries(
        {
            "name": st.sampled_from(["a.h5", "b.h5", "sub/c.h5"]),
            "kind": st.sampled_from(["crowd", "link"]),
            "n": st.sampled_from([1, 3, 12, 40, 130]),
        }
    )
    return st.lists(st.one_of(op, op, op, op, op, folder, crowd), min_size=1, max_size=8)


@facet(
    "P03",
    "no_overwrite_history",
    clobber_st,
    quick=250,
    thorough=6000,
    shards=2,
    rule="histories of 1-7 writer creations on a few colliding names (default / modify / "
    "force_overwrite, folders / many foreign files in the way, links to recordings), content of all files compared with a model after each; "
    "non-trivial: a name collision happened",
)
def p03_no_overwrite(case, ctx):
    base = ctx.tmp / "data"
    base.mkdir()
    content: dict[Path, tuple] = {}
    dirs: set[Path] = set()
    links: set[Path] = set()
    foreign: dict[Path, bytes] = {}
    collided = False

    def present() -> set:
        return {p for p in base.rglob("*") if p.is_file()} - links - set(foreign)

    for num, op in enumerate(case):
        path = base / op["name"]
        if op["kind"] in {"crowd", "link"} and (path.parent in dirs or any(p.is_file() for p in path.parents)):
            continue
        if op["kind"] == "crowd":
            # files of someone else occupy the name and its first alternatives
            path.parent.mkdir(parents=True, exist_ok=True)
            for pth in [path, *[path.with_suffix(f".{i}{path.suffix}") for i in range(op["n"])]]:
                if not pth.exists():
                    foreign[pth] = f"foreign {num} {pth.name}".encode()
                    pth.write_bytes(foreign[pth])
            continue
        if op["kind"] == "link":
            target = sorted(content)[op["n"] % len(content)] if content else None
            if target is not None and not path.exists():
                path.parent.mkdir(parents=True, exist_ok=True)
                path.symlink_to(target)
                links.add(path)
            continue
        if op["kind"] == "dir":
            if not path.exists():
                path.mkdir(parents=True)
                dirs.add(path)
            continue
        if any(d in path.parents for d in dirs if d.suffix):
            continue
        if op["kind"] == "modify" and path in links:
            continue
        if op["kind"] == "modify" and (path not in content):
            ctx.raises(lambda p=path: Writer(p, modify_existing=True, verbose=None), "modify without file")
            ctx.check(path in dirs or path in foreign or not path.exists(), "failed modification left a file behind")
            ctx.check(path not in foreign or path.read_bytes() == foreign[path], "failed modification changed a foreign file")
            continue
        if path.is_dir():
            ctx.raises(
                lambda p=path, k=op["kind"]: Writer(p, force_overwrite=k == "force", verbose=None),
                "a folder as destination",
            )
            ctx.check(path.is_dir(), "a folder was replaced")
            continue
        if any(p in content for p in path.parents):
            continue
        if path in links or path in foreign:
            if op["kind"] != "new":
                continue
            collided = True
        collided |= path in content
        ctx.eq(present(), set(content), "files present")
        args = {"verbose": None}
        if op["kind"] == "modify":
            args["modify_existing"] = True
        elif op["kind"] == "force":
            args["force_overwrite"] = True
        volt = series({"kind": "rand", "seed": num + 1}, op["n"])
        with Writer(path, **args) as wtr:
            wtr.store_hostname(f"op{num}")
            wtr.append_iv_data_raw(T0 + num * 10**9, volt, volt)
            dest = Path(wtr.file_path)
        if op["kind"] == "modify":
            ctx.eq(dest, path, "destination of modification")
            old = content[path][1]
            content[path] = (f"op{num}", np.concatenate((old, volt)))
        elif path in links:
            ctx.check(dest not in content, f"file behind a link ({dest.name}) was used as destination")
            ctx.check(dest not in dirs and base in dest.parents, f"unexpected destination {dest}")
            content[dest] = (f"op{num}", volt)
        elif op["kind"] == "force" or (path not in content and path not in foreign):
            ctx.eq(dest, path, "destination of unused / enforced name")
            content[path] = (f"op{num}", volt)
        else:
            ctx.check(dest not in content, f"existing file {dest.name} was used as destination")
            ctx.check(dest not in dirs, f"existing folder {dest.name} was used as destination")
            ctx.eq(dest.parent, path.parent, "alternative location")
            if path.suffix:
                ctx.eq(dest.suffix, path.suffix, "suffix of alternative")
            content[dest] = (f"op{num}", volt)
        for pth, (host, data) in content.items():
            ctx.check(pth.exists(), f"{pth.name} vanished")
            with h5py.File(pth, "r") as h5f:
                ctx.eq(h5f.attrs["hostname"], host, f"owner of {pth.name} after op {num}")
                got = h5f["data"]["voltage"][...]
                ctx.check(np.array_equal(got, data), f"samples in {pth.name} changed by op {num}")
        for pth, raw in foreign.items():
            ctx.check(pth.is_file() and pth.read_bytes() == raw, f"foreign file {pth.name} changed by op {num}")
        ctx.eq(present(), set(content), "files present")
    ctx.nontrivial(collided)


# ---------------------------------------------------------------- P04 buffered reading
@facet(
    "P04",
    "buffer_partition",
    lambda: st.fixed_dictionaries(
        {
            "n": st.one_of(st.integers(0, 60), st.integers(0, 3000), st.integers(BUF - 2, 2 * BUF + 5)),
            "size": st.one_of(st.none(), st.integers(1, 50), st.integers(1, 4000), st.just(BUF), st.sampled_from([BUF + 1, 10**6, 5 * 10**6, 5 * 10**6])),
            "start": st.one_of(st.integers(0, 1), st.integers(0, 12)),
            "end": st.one_of(st.none(), st.integers(0, 40)),
            "raw": st.booleans(),
            "omit": st.booleans(),
            "cal": cal_st(),
            "volt": spec_st(),
            "curr": spec_st(),
            "inter": st.booleans(),
        }
    ),
    quick=600,
    thorough=15000,
    shards=2,
    rule="files of 0-20k samples read with generated start / end / buffer-size / raw / omit flags, "
    "two interleaved generators; each delivered buffer equals the slice of the dataset; "
    "non-trivial: >=2 buffers delivered and start>0 or end limiting",
)
def p04_partition(case, ctx):
    path = ctx.tmp / "in.h5"
    n = case["n"]
    cal = case["cal"]
    t, v, c = ns_times(n), series(case["volt"], n), series(case["curr"], n)
    make_h5(path, t, v, c, cal={"voltage": (cal["vg"], cal["vo"]), "current": (cal["cg"], cal["co"])})
    before = path.read_bytes()
    size = case["size"] or BUF
    n_full = n // size
    end = n_full if case["end"] is None else min(case["end"], n_full)
    # keep the number of buffers reasonable
    want_idx = list(range(case["start"], end))
    if len(want_idx) > 300:
        end = case["start"] + 300
        want_idx = want_idx[:300]
        case = {**case, "end": end}
    with Reader(path, verbose=None) as rdr:
        ctx.eq(rdr.buffers_n, n // BUF, "number of whole buffers")
        args = {"start_n": case["start"], "end_n": case["end"], "is_raw": case["raw"], "omit_ts": case["omit"]}
        if case["size"] is not None:
            args["n_samples_per_buffer"] = size
        gen = rdr.read_buffers(**args)
        other = rdr.read_buffers(is_raw=True, n_samples_per_buffer=max(1, n // 3 or 1))
        bufs = []
        for buf in gen:
            bufs.append(buf)
            if case["inter"]:
                next(other, None)
        ctx.eq(len(bufs), len(want_idx), "number of buffers")
        for idx, buf in zip(want_idx, bufs):
            sel = slice(idx * size, (idx + 1) * size)
            ctx.eq(len(buf), 3, "elements of a buffer")
            b_t, b_v, b_c = buf
            if case["omit"]:
                ctx.check(b_t is None, "timestamps delivered although omitted")
            if case["raw"]:
                ok = np.array_equal(b_v, v[sel]) and np.array_equal(b_c, c[sel])
                if not case["omit"]:
                    ok = ok and np.array_equal(b_t, t[sel])
                ctx.check(ok, f"raw buffer {idx} differs from dataset")
            else:
                want_v = v[sel].astype(float) * cal["vg"] + cal["vo"]
                want_c = c[sel].astype(float) * cal["cg"] + cal["co"]
                ok = (
                    len(b_v) == size
                    and len(b_c) == size
                    and np.allclose(b_v, want_v, rtol=1e-9, atol=1e-12)
                    and np.allclose(b_c, want_c, rtol=1e-9, atol=1e-15)
                )
                if not case["omit"]:
                    ok = ok and np.allclose(b_t, t[sel].astype(float) * 1e-9, rtol=0, atol=1e-6)
                ctx.check(ok, f"converted buffer {idx} differs from dataset")
    ctx.eq(path.read_bytes() == before, True, "file unchanged by reading")
    ctx.label("raw" if case["raw"] else "si")
    ctx.nontrivial(len(bufs) >= 2 and (case["start"] > 0 or end < n_full))


@facet(
    "P04",
    "read_while_writing",
    lambda: st.lists(
        st.fixed_dictionaries(
            {
                "add": st.one_of(st.integers(0, 60), st.sampled_from([BUF, BUF, 2 * BUF, BUF - 1, BUF + 1])),
                "size": st.one_of(st.none(), st.none(), st.integers(1, 50), st.integers(1000, 12_000)),
                "start": st.integers(0, 2),
                "end": st.one_of(st.none(), st.integers(0, 5)),
                "close": st.booleans(),
            }
        ),
        min_size=1,
        max_size=5,
    ),
    quick=150,
    thorough=4000,
    shards=2,
    rule="a writer (new or re-opened) alternates between appending samples and iterating buffers, each iteration "
    "delivers exactly the whole buffers stored so far; non-trivial: >=2 steps deliver buffers",
)
def p04_read_while_writing(case, ctx):
    path = ctx.tmp / "w.h5"
    vals = np.arange(1, dtype="u4")[:0]
    wtr = None
    hits = 0
    for num, step in enumerate(case):
        if wtr is None:
            wtr = Writer(path, modify_existing=path.exists(), verbose=None)
            ctx.eq(wtr.ds_voltage.shape[0], len(vals), "samples found when opening")
        new = series({"kind": "rand", "seed": num + 1}, step["add"])
        t_new = ns_times(step["add"], T0 + STEP * len(vals))
        wtr.append_iv_data_raw(t_new, new, new)
        vals = np.concatenate((vals, new))
        size = step["size"] or BUF
        stop = len(vals) // size if step["end"] is None else min(step["end"], len(vals) // size)
        want = list(range(step["start"], stop))[:200]
        args = {} if step["size"] is None else {"n_samples_per_buffer": step["size"]}
        got = 0
        for idx, buf in zip(range(step["start"], step["start"] + 200), wtr.read_buffers(step["start"], step["end"], is_raw=True, **args)):
            sel = slice(idx * size, (idx + 1) * size)
            ctx.check(len(buf[1]) == size and np.array_equal(buf[1], vals[sel]), f"buffer {idx} in step {num} differs from the appended samples")
            ctx.check(np.array_equal(buf[2], vals[sel]), f"current of buffer {idx} in step {num} differs")
            ctx.check(np.array_equal(buf[0], T0 + STEP * np.arange(sel.start, sel.stop).astype("u8")), f"time of buffer {idx} in step {num} differs")
            got += 1
        ctx.eq(got, len(want), f"number of buffers in step {num}")
        hits += got > 0
        if step["close"]:
            wtr.__exit__()
            wtr = None
            vals = vals[: len(vals) // BUF * BUF]
    if wtr is not None:
        wtr.__exit__()
    ctx.nontrivial(hits >= 2)


# ---------------------------------------------------------------- P05 validity verdict
FATAL = [
    "no_data",
    "no_mode",
    "bad_mode",
    "no_datatype",
    "no_window",
    "bad_datatype",
    "emu_curve",
    "emu_iscvoc",
    "curve_no_window",
    *[f"no_ds:{d}" for d in ("time", "voltage", "current")],
    *[f"no_attr:{d}:{a}" for d in ("time", "voltage", "current") for a in ("gain", "offset")],
]
BENIGN = [
    "gzip",
    "hostname",
    "log_errors",
    "extra_group",
    "extra_attr",
    "short_current",
    "window_on_sample",
    "gpio",
    "mode_emulator",
    "isc_voc",
    "curve_with_window",
    "no_unit",
]


@facet(
    "P05",
    "verdict_on_faulty_files",
    lambda: st.fixed_dictionaries(
        {
            "n": st.sampled_from([0, 1, 17, BUF, BUF + 1]),
            "benign": st.lists(st.sampled_from(BENIGN), max_size=4, unique=True),
            "fatal": st.lists(st.sampled_from(FATAL), max_size=2, unique=True),
        }
    ),
    quick=500,
    thorough=8000,
    shards=2,
    rule="structurally valid recordings with 0-4 harmless deviations and 0-2 faults (missing "
    "group/dataset/attribute, unsupported mode/datatype combinations, missing window); verdict "
    "must equal the specification; non-trivial: a fault or >=2 deviations",
    cases=lambda: [{"n": BUF, "benign": [], "fatal": [f]} for f in FATAL]
    + [{"n": BUF, "benign": [b], "fatal": []} for b in BENIGN]
    + [{"n": 17, "benign": [a, b], "fatal": []} for a, b in itertools.combinations(BENIGN, 2)],
)
def p05_verdict(case, ctx):
    path = ctx.tmp / "some.h5"
    n = case["n"]
    ben = set(case["benign"])
    dtype, window, mode = "ivsample", 0, "harvester"
    if "mode_emulator" in ben:
        mode = "emulator"
        ben -= {"isc_voc", "curve_with_window"}
    elif "isc_voc" in ben:
        dtype = "isc_voc"
        ben -= {"curve_with_window"}
    elif "curve_with_window" in ben:
        dtype, window = "ivcurve", 100
    if "window_on_sample" in ben and window == 0:
        window = 5
    make_h5(
        path,
        ns_times(n),
        series({"kind": "rand", "seed": 1}, n),
        series({"kind": "rand", "seed": 2}, n),
        mode=mode,
        datatype=dtype,
        window=window,
        compression="gzip" if "gzip" in ben else "lzf",
        hostname="sheep" if "hostname" in ben else None,
        logs={"sheep": {"time": [1, 2], "message": ["a", "b"], "level": [40, 50]}} if "log_errors" in ben else None,
    )
    with h5py.File(path, "r+") as h5f:
        data = h5f["data"]
        if "extra_group" in ben:
            h5f.create_group("ptp")["v"] = [1, 2, 3]
        if "extra_attr" in ben:
            data.attrs["something"] = 1
        if "short_current" in ben and n > 2:
            data["current"].resize((n - 1,))
        if "gpio" in ben:
            add_gpio(h5f, [1, 2], [0, 1], {0: "x"})
        if "no_unit" in ben:
            del data["time"].attrs["unit"]
        for flt in case["fatal"]:
            parts = flt.split(":")
            if "data" not in h5f:
                break
            if flt == "no_data":
                del h5f["data"]
            elif flt == "no_mode":
                h5f.attrs.pop("mode", None)
            elif flt == "bad_mode":
                h5f.attrs["mode"] = "harvest"
            elif flt == "no_datatype":
                data.attrs.pop("datatype", None)
            elif flt == "no_window":
                data.attrs.pop("window_samples", None)
            elif flt == "bad_datatype":
                data.attrs["datatype"] = "iv_sample"
            elif flt in {"emu_curve", "emu_iscvoc"}:
                h5f.attrs["mode"] = "emulator"
                data.attrs["datatype"] = "ivcurve" if flt == "emu_curve" else "isc_voc"
                data.attrs["window_samples"] = 10
            elif flt == "curve_no_window":
                data.attrs["datatype"] = "ivcurve"
                data.attrs["window_samples"] = 0
            elif parts[0] == "no_ds" and parts[1] in data:
                del data[parts[1]]
            elif parts[0] == "no_attr" and parts[1] in data:
                data[parts[1]].attrs.pop(parts[2], None)
    # faults can cancel each other -> derive verdict from the content (specification)
    with h5py.File(path, "r") as h5f:
        expect = spec_valid(h5f)
    if case["fatal"]:
        try:
            with Reader(path, verbose=None) as rdr:
                got = rdr.is_valid()
        except (KeyError, ValueError, TypeError):
            got = False
    else:
        with Reader(path, verbose=None) as rdr:
            got = rdr.is_valid()
            ctx.check(rdr.get_metadata(minimal=True), "no metadata for a valid file")
    ctx.check(bool(got) == expect, f"is_valid() = {got}, expected {expect}")
    ctx.label("valid" if expect else "faulty")
    ctx.nontrivial(bool(case["fatal"]) or len(case["benign"]) >= 2)


def spec_valid(h5f: h5py.File) -> bool:
    if "data" not in h5f or h5f.attrs.get("mode") not in ALLOWED:
        return False
    data = h5f["data"]
    if not {"window_samples", "datatype"} <= set(data.attrs):
        return False
    for dst in ("time", "voltage", "current"):
        if dst not in data or not {"gain", "offset"} <= set(data[dst].attrs):
            return False
    if data.attrs["datatype"] not in ALLOWED[h5f.attrs["mode"]]:
        return False
    return data.attrs["datatype"] != "ivcurve" or data.attrs["window_samples"] >= 1


@facet(
    "P05",
    "not_a_recording",
    lambda: st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["bytes", "truncated", "missing", "folder", "empty"]),
            "blob": st.lists(st.integers(0, 255), max_size=40),
            "cut": floats(0.0, 0.98),
        }
    ),
    quick=150,
    thorough=3000,
    rule="random bytes, truncated recordings, missing paths and folders have to be refused with an "
    "error; non-trivial: a file with bytes in it",
)
def p05_garbage(case, ctx):
    path = ctx.tmp / "x.h5"
    kind = case["kind"]
    if kind == "bytes":
        path.write_bytes(bytes(case["blob"]))
    elif kind == "empty":
        path.write_bytes(b"")
    elif kind == "folder":
        path.mkdir()
    elif kind == "truncated":
        make_h5(path, ns_times(500), np.arange(500), np.arange(500))
        raw = path.read_bytes()
        path.write_bytes(raw[: int(len(raw) * case["cut"])])
    xcp = ctx.raises(lambda: Reader(path, verbose=None), f"opening of {kind}", (TypeError, FileNotFoundError, KeyError))
    if kind in {"missing", "folder"}:
        ctx.check(isinstance(xcp, FileNotFoundError), f"{kind} results in {type(xcp).__name__}")
    else:
        ctx.check(isinstance(xcp, TypeError), f"{kind} results in {type(xcp).__name__}")
    ctx.label(kind)
    ctx.nontrivial(path.is_file() and path.stat().st_size > 0)


@facet(
    "P05",
    "time_jumps",
    lambda: st.fixed_dictionaries(
        {
            "bufs": st.integers(0, 9),
            "rest": st.sampled_from([0, 0, 1, 500]),
            "jumps": st.lists(
                st.tuples(
                    st.integers(0, 9),
                    st.sampled_from([-1, 1]),
                    # the clock may also repeat or exactly mirror the previous step
                    st.one_of(st.sampled_from([100, 200, 200]), st.integers(20, 5000)),
                ).map(list),
                max_size=2,
            ),
            "step": st.sampled_from([STEP, STEP, STEP, 20_000, 5_000]),
            "chunk": st.sampled_from([None, 2 * BUF, 3 * BUF, BUF * 5]),
        }
    ),
    quick=200,
    thorough=4000,
    shards=2,
    rule="recordings of 0-9 buffers with 0-2 inserted clock jumps (20 ms - 5 s, both directions, any "
    "buffer border) and other rates, evaluated in one or several blocks; non-trivial: >=2 buffers "
    "and a jump or a foreign rate",
)
def p05_time_jumps(case, ctx):
    path = ctx.tmp / "t.h5"
    n = case["bufs"] * BUF + case["rest"]
    times = ns_times(n, T0, case["step"]).astype("i8")
    jumped = False
    n_starts = -(-n // BUF)  # buffer-starts incl. the partial one
    for pos, sgn, ms in case["jumps"]:
        if not 0 < pos < n_starts:
            continue
        times[pos * BUF :] += sgn * ms * 1_000_000
    starts = times[::BUF]
    diffs = np.diff(starts)
    jumped = bool(np.any(np.abs(diffs - BUF * STEP) > 15_000_000))
    if not jumped and np.any(np.abs(diffs - BUF * STEP) > 500_000):
        return  # border of detection, not claimed
    make_h5(path, times.astype("u8"), np.zeros(n), np.zeros(n))
    with Reader(path, verbose=None) as rdr:
        if case["chunk"] is not None:
            rdr.max_elements = case["chunk"]
        got = rdr.check_timediffs()
    ctx.check(
        bool(got) == (not jumped),
        f"check_timediffs() = {got}, steps between buffers [ms] = {(diffs // 1_000_000).tolist()}",
    )
    ctx.label("jump" if jumped else "regular", f"bufs={min(case['bufs'], 2)}")
    ctx.nontrivial(n_starts >= 2 and jumped)


@facet(
    "P05",
    "error_count",
    lambda: st.fixed_dictionaries(
        {
            "levels": st.lists(st.sampled_from([0, 10, 20, 30, 39, 40, 41, 50, 255]), max_size=30),
            "lead": st.sampled_from([0, 0, 0, 0, 300, BUF, 2 * BUF + 7, 70_000]),
            "min": st.one_of(st.none(), st.integers(0, 60)),
            "group": st.sampled_from(["sheep", "kernel", "absent", "nolevel"]),
        }
    ),
    quick=150,
    thorough=2000,
    rule="log groups with generated levels; the error count equals the number of entries at or above "
    "the limit; non-trivial: entries on both sides of the limit",
)
def p05_error_count(case, ctx):
    path = ctx.tmp / "l.h5"
    logs = {}
    levels = [20] * case["lead"] + case["levels"]  # long logs start with harmless entries
    case = {**case, "levels": levels}
    n = len(levels)
    for name in ("sheep", "kernel"):
        logs[name] = {"time": range(n), "message": ["m"] * n, "level": levels}
    logs["nolevel"] = {"time": range(n), "message": ["m"] * n}
    make_h5(path, ns_times(3), np.zeros(3), np.zeros(3), logs=logs)
    args = {"group_name": case["group"]}
    if case["min"] is not None:
        args["min_level"] = case["min"]
    with Reader(path, verbose=None) as rdr:
        got = rdr.count_errors_in_log(**args)
        if case["group"] == "sheep" and case["min"] is None:
            ctx.eq(rdr.count_errors_in_log(), got, "default arguments")
    lim = 40 if case["min"] is None else case["min"]
    want = sum(1 for x in case["levels"] if x >= lim) if case["group"] in {"sheep", "kernel"} else 0
    ctx.eq(got, want, "number of errors in log")
    ctx.nontrivial(0 < want < n)


# ---------------------------------------------------------------- P06 derived quantities
@facet(
    "P06",
    "energy_and_statistics",
    lambda: st.fixed_dictionaries(
        {
            "n": st.one_of(st.integers(0, 30), st.integers(2, 4000), st.integers(BUF - 2, 2 * BUF)),
            "step": st.sampled_from([STEP, STEP, 20_000, 50_000, 1_000_000, 10_000_000]),
            "chunk": st.one_of(st.none(), st.integers(1, 600), st.integers(200, 9000)),
            "cal": cal_st(),
            "volt": spec_st(),
            "curr": spec_st(),
        }
    ),
    quick=400,
    thorough=8000,
    shards=2,
    rule="recordings of 0-20k samples at several rates, evaluated in blocks of generated size; "
    "energy, duration, samplerate, mean/min/max/std compared with a direct computation; "
    "non-trivial: more than one block, length no multiple of the block-size",
)
def p06_energy(case, ctx):
    path = ctx.tmp / "e.h5"
    n = case["n"]
    cal = case["cal"]
    chunk = case["chunk"]
    if chunk is not None:
        chunk = max(chunk, n // 60 + 1)
    t, v, c = ns_times(n, T0, case["step"]), series(case["volt"], n), series(case["curr"], n)
    make_h5(path, t, v, c, cal={"voltage": (cal["vg"], cal["vo"]), "current": (cal["cg"], cal["co"])})
    v_si = v.astype(float) * cal["vg"] + cal["vo"]
    c_si = c.astype(float) * cal["cg"] + cal["co"]
    rate = round(1e9 / case["step"]) if n >= 2 else 100_000
    step_s = case["step"] * 1e-9 if n >= 2 else 1e-5
    with Reader(path, verbose=None) as rdr:
        ctx.eq(rdr.samplerate_sps, rate, "samplerate")
        ctx.check(abs(rdr.runtime_s - n / rate) <= 0.0501, f"runtime {rdr.runtime_s} s, expected {n / rate}")
        ctx.close(rdr.sample_interval_s, step_s, "sample interval [s]", rel=1e-6, key="interval")
        ctx.eq(rdr.sample_interval_ns, round(step_s * 1e9), "sample interval [ns]", key="interval")
        if chunk is not None:
            rdr.max_elements = chunk
        got = rdr.energy()
        want = float(np.sum(v_si * c_si)) * step_s
        scale = float(np.sum(np.abs(v_si * c_si))) * step_s
        ctx.close(got, want, "energy [Ws]", rel=1e-9, abs_=1e-9 * scale, key="energy")
        ctx.close(rdr.energy(), got, "second query of the energy", rel=1e-12, abs_=1e-12 * scale)
        meta = rdr.get_metadata()
        ctx.close(meta["data"]["_group_info"]["energy_Ws"], want, "energy in metadata", rel=1e-9, abs_=1e-9 * scale)
        ctx.eq(meta["data"]["_group_info"]["valid"], True, "validity in metadata")
        for name, si in (("voltage", v_si), ("current", c_si)):
            stats = meta["data"][name]["_dataset_info"]["statistics"]
            if n == 0:
                continue
            mag = float(np.max(np.abs(si))) + 1e-15
            ctx.close(stats["min"], float(si.min()), f"min {name}", rel=1e-9, abs_=1e-9 * mag)
            ctx.close(stats["max"], float(si.max()), f"max {name}", rel=1e-9, abs_=1e-9 * mag)
            ctx.close(stats["mean"], float(si.mean()), f"mean {name}", rel=1e-9, abs_=1e-8 * mag, key="mean")
            ctx.close(stats["std"], float(si.std()), f"std {name}", rel=1e-6, abs_=1e-6 * mag, key="std")
            ctx.eq(stats["si_converted"], True, "si_converted")
    ctx.label("blocks" if chunk and n > chunk else "one block")
    ctx.nontrivial(bool(chunk) and n > chunk and n % chunk != 0)


@facet(
    "P06",
    "energy_while_writing",
    lambda: st.lists(
        st.fixed_dictionaries(
            {
                "add": st.one_of(st.integers(0, 60), st.sampled_from([BUF, 2 * BUF, BUF - 1, BUF + 1])),
                "chunk": st.one_of(st.none(), st.integers(1000, 9000)),
                "ask": st.booleans(),
                "close": st.sampled_from([False, False, True]),
            }
        ),
        min_size=1,
        max_size=6,
    ),
    quick=150,
    thorough=4000,
    shards=2,
    rule="a writer (new or re-opened) alternates between appending samples and asking for energy & statistics; every answer "
    "covers exactly the samples stored so far; non-trivial: two answers with data added in between",
)
def p06_energy_while_writing(case, ctx):
    path = ctx.tmp / "w.h5"
    volt = np.zeros(0, dtype="u4")
    curr = np.zeros(0, dtype="u4")
    asked = []
    wtr = None
    for num, step in enumerate(case):
        if wtr is None:
            wtr = Writer(path, modify_existing=path.exists(), verbose=None)
        n_new = step["add"]
        v, c = (series({"kind": "rand", "seed": 2 * num + k}, n_new) for k in (0, 1))
        wtr.append_iv_data_raw(ns_times(n_new, T0 + STEP * len(volt)), v, c)
        volt, curr = np.concatenate((volt, v)), np.concatenate((curr, c))
        if step["ask"]:
            if step["chunk"] is not None:
                wtr.max_elements = step["chunk"]
            cal = {
                name: (float(wtr.h5file["data"][name].attrs["gain"]), float(wtr.h5file["data"][name].attrs["offset"]))
                for name in ("voltage", "current")
            }
            v_si = volt.astype(float) * cal["voltage"][0] + cal["voltage"][1]
            c_si = curr.astype(float) * cal["current"][0] + cal["current"][1]
            want = float(np.sum(v_si * c_si)) * STEP * 1e-9
            scale = float(np.sum(np.abs(v_si * c_si))) * STEP * 1e-9
            ctx.close(wtr.energy(), want, f"energy in step {num} with {len(volt)} samples", rel=1e-9, abs_=1e-9 * scale)
            if len(volt):
                stats = wtr.get_metadata(minimal=False)["data"]["voltage"]["_dataset_info"]["statistics"]
                ctx.close(stats["max"], float(v_si.max()), f"max. voltage in step {num}", rel=1e-9)
                ctx.close(stats["mean"], float(v_si.mean()), f"mean voltage in step {num}", rel=1e-8)
            asked.append(len(volt))
        if step["close"]:
            wtr.__exit__()
            wtr = None
            keep = len(volt) // BUF * BUF
            volt, curr = volt[:keep], curr[:keep]
    if wtr is not None:
        wtr.__exit__()
    ctx.nontrivial(len(set(asked)) >= 2)


ATTR = st.one_of(
    st.integers(-(2**40), 2**40),
    floats(-1e9, 1e9),
    st.booleans(),
    st.sampled_from(["plain", "with: colon", "[1, 2]", "{a: 1}", "", "null", "12", "1e-3", "@bad", "%x", "a: b: c", "ümlaut"]),
    st.lists(st.integers(-(2**40), 2**40), max_size=5),
    st.lists(floats(-1e9, 1e9), min_size=1, max_size=4),
    st.lists(st.booleans(), min_size=1, max_size=3),
    st.lists(st.sampled_from(["a", "b: c", "", "ü"]), min_size=1, max_size=3),
    st.just([[1, 2], [3, 4]]),
    st.none(),
)


@facet(
    "P06",
    "metadata_dump",
    lambda: st.fixed_dictionaries(
        {
            "n": st.sampled_from([0, 3, 300]),
            "root": st.dictionaries(st.sampled_from(["aa", "bb", "cc"]), ATTR, max_size=3),
            "data": st.dictionaries(st.sampled_from(["aa", "bb", "cc"]), ATTR, max_size=3),
            "group": st.booleans(),
            "log": st.booleans(),
            "existing": st.booleans(),
            "minimal": st.booleans(),
            # datasets of other services
            "extra": st.lists(
                st.fixed_dictionaries(
                    {
                        "values": st.lists(st.integers(0, 2**31), max_size=12),
                        "type": st.sampled_from(["u4", "i8", "u8", "f4"]),
                        "gain": st.sampled_from([None, None, 1e-3, 2.0]),
                        "offset": st.sampled_from([None, None, 0.0, -5.0]),
                    }
                ),
                max_size=2,
            ),
        }
    ),
    quick=300,
    thorough=6000,
    rule="files with generated attributes / groups / datasets (statistics of these follow their samples); the metadata tree mirrors them, the yaml file "
    "holds the same tree, an existing yaml is never overwritten, the recording stays unchanged; "
    "non-trivial: >=2 extra attributes",
)
def p06_metadata(case, ctx):
    path = ctx.tmp / "m.h5"
    n = case["n"]
    logs = {"sheep": {"time": [1, 2], "message": ["x", "y"], "level": [10, 20]}} if case["log"] else None
    make_h5(path, ns_times(n), np.arange(n), np.arange(n), hostname="host", logs=logs)

    def raw(val):
        if type(val) is int and abs(val) < 2**15:
            return np.int16(val)
        return h5py.Empty("f8") if val is None else val

    with h5py.File(path, "r+") as h5f:
        for key, val in case["root"].items():
            h5f.attrs[key] = raw(val)
        for key, val in case["data"].items():
            h5f["data"].attrs[key] = raw(val)
        if case["group"]:
            h5f.create_group("extra").attrs["k"] = 5
        for num, spec in enumerate(case.get("extra", [])):
            dset = h5f.create_dataset(f"service{num}/load", data=np.array(spec["values"], dtype=spec["type"]))
            for key in ("gain", "offset"):
                if spec[key] is not None:
                    dset.attrs[key] = spec[key]
    before = path.read_bytes()
    yml = path.with_suffix(".yaml")
    if case["existing"]:
        yml.write_text("mine: 1\n")

    def norm(val):
        if isinstance(val, str):
            try:
                return yaml.safe_load(val)
            except yaml.YAMLError:
                return val
        return val

    with Reader(path, verbose=None) as rdr:
        meta = rdr.get_metadata(minimal=case["minimal"])
        ret = rdr.save_metadata()
        rep = yaml.safe_load(repr(rdr))
    for key, val in case["root"].items():
        ctx.check(meta[key] == norm(val), f"root attribute {key} = {meta[key]!r}, expected {norm(val)!r}")
        ctx.check(rep[key] == norm(val), f"root attribute {key} in representation")
    for key, val in case["data"].items():
        ctx.check(meta["data"][key] == norm(val), f"data attribute {key} = {meta['data'][key]!r}")
        ctx.check(
            type(meta["data"][key]) is int or not isinstance(val, int) or isinstance(val, bool), f"integer {key} turned into {meta['data'][key]!r}"
        )
    for num, spec in enumerate(case.get("extra", [])):
        node = meta[f"service{num}"]["load"]
        for key in ("gain", "offset"):
            ctx.eq(node.get(key), spec[key], f"{key} of additional dataset")
        if case["minimal"]:
            continue
        ctx.eq(node["_dataset_info"]["shape"], f"({len(spec['values'])},)", "shape of additional dataset")
        stats = node["_dataset_info"].get("statistics")
        if not stats or not spec["values"]:
            ctx.check(not stats and (not spec["values"] or spec["type"] == "f4"), f"statistics of additional dataset are {stats}")
            continue
        vals = np.array(spec["values"], dtype=spec["type"]).astype(float)
        if stats["si_converted"]:
            ctx.check(spec["gain"] is not None, "conversion without gain")
            vals = vals * spec["gain"] + (spec["offset"] or 0.0)
        else:
            ctx.check(spec["gain"] is None or spec["offset"] is None, "calibrated samples were not converted")
        mag = float(np.abs(vals).max()) + 1e-15
        for key, want in (("min", vals.min()), ("max", vals.max()), ("mean", vals.mean()), ("std", vals.std())):
            ctx.close(stats[key], float(want), f"{key} of additional dataset", rel=1e-6, abs_=1e-6 * mag)
    ctx.eq(meta["hostname"], "host", "hostname")
    names = {"data"} | ({"extra"} if case["group"] else set()) | ({"sheep"} if case["log"] else set())
    ctx.check(names <= set(meta), f"groups missing in metadata: {names - set(meta)}")
    ctx.check({"time", "voltage", "current"} <= set(meta["data"]), "datasets missing in metadata")
    ctx.eq(meta["data"]["voltage"]["gain"], 3e-9, "gain in metadata")
    if not case["minimal"]:
        ctx.eq(meta["data"]["voltage"]["_dataset_info"]["shape"], f"({n},)", "shape in metadata")
    if case["existing"]:
        ctx.eq(ret, {}, "result for existing yaml")
        ctx.eq(yml.read_text(), "mine: 1\n", "existing yaml")
    else:
        loaded = yaml.safe_load(yml.read_text(encoding="utf-8-sig"))
        ctx.check(loaded == ret, "content of yaml differs from returned metadata")
        if not case["minimal"]:
            ctx.check(loaded == meta, "content of yaml differs from metadata")
    ctx.check(path.read_bytes() == before, "recording was changed")
    ctx.eq(set(p.name for p in ctx.tmp.iterdir()), {"m.h5", "m.yaml"}, "files in folder")
    ctx.nontrivial(len(case["root"]) + len(case["data"]) >= 2)
