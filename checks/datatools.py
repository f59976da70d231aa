"""P25-P28: post-processing of recordings - downsampling, exports, command line, converters."""

from __future__ import annotations

import math

import h5py
import numpy as np
import yaml

from harness.core import facet
from harness.util import T0
from harness.util import h5_dump
from harness.util import make_h5
from harness.util import ns_times
from harness.util import seeded
from harness.util import series
from harness.util import silence
from shepherd_data import Reader

FS = 100_000

# --------------------------------------------------------------------------- P25


def signal_spec(rng) -> dict:
    kind = rng.choice(["const", "tone", "step", "rand", "ramp"])
    return {"kind": kind, "seed": rng.randrange(2**16), "rel": rng.choice([0.02, 0.1, 0.3, 3.0, 5.0])}


def make_signal(spec: dict, n: int, ds: int) -> np.ndarray:
    """Raw samples, amplitude is kept inside of 31 bit to leave headroom for overshoot."""
    amp = 10_000 + spec["seed"] * 10_000
    pos = np.arange(n)
    if spec["kind"] == "const":
        return np.full(n, amp, dtype=float)
    if spec["kind"] == "tone":
        # frequency relative to the new nyquist-limit
        freq = spec["rel"] * 0.5 / max(1, ds)
        return np.round(amp * (1 + 0.5 * np.sin(2 * np.pi * freq * pos)))
    if spec["kind"] == "step":
        cut = n * (1 + spec["seed"] % 7) // 8
        out = np.zeros(n)
        if spec["seed"] % 2:
            out[cut:] = amp
        else:
            out[:cut] = amp
        return out
    if spec["kind"] == "ramp":
        return np.round(amp * pos / n)
    return series({"kind": "rand", "seed": spec["seed"]}, n, hi=2**30).astype(float)


def judge_signal(ctx, spec: dict, src: np.ndarray, out: np.ndarray, ds: int, what: str, lsb: float) -> None:
    """Properties of every sane low-pass with decimation."""
    ctx.eq(len(out), len(src) // ds, f"{what}: length after factor {ds}")
    if len(out) == 0:
        return
    if ds == 1:
        ctx.check(np.array_equal(out, src), f"{what}: factor 1 has to keep the samples")
        return
    out = out.astype(float)
    lo, hi = src.min(), src.max()
    span = hi - lo
    tol = lsb + 1e-6 * max(abs(lo), abs(hi))
    ctx.check(
        out.min() >= lo - 0.3 * span - tol and out.max() <= hi + 0.3 * span + tol,
        lambda: f"{what}: samples {out.min()}..{out.max()} are far outside of source {lo}..{hi} ({spec})",
    )
    kind = spec["kind"]
    if kind == "const":
        ctx.check(
            np.allclose(out, src[0], rtol=1e-6, atol=lsb),
            lambda: f"{what}: constant {src[0]} became {out.min()}..{out.max()}, first {out[:6]}",
        )
    elif kind == "ramp" and len(out) > 40:
        ref = src[::ds][: len(out)]
        # delay of the filter is limited to a few output-samples
        lag = ref - out
        slope = span / len(src) * ds
        ctx.check(
            lag[30:].min() >= -0.6 * slope - lsb and lag.max() <= 6 * slope + lsb,
            lambda: f"{what}: ramp is off by {lag[30:].min() / slope:.2f}..{lag.max() / slope:.2f} output-samples",
        )
    elif kind == "tone" and len(out) > 150:
        amp = span / 2
        if amp < 100 * max(lsb, 1):
            return
        mid = out[60:]
        got = (mid.max() - mid.min()) / 2 / amp
        if spec["rel"] <= 0.3:
            # enough samples per period to see the peaks
            periods = len(mid) * spec["rel"] / 2
            if periods >= 2:
                ctx.check(
                    0.85 <= got <= 1.05,
                    lambda: f"{what}: tone at {spec['rel']} x nyquist has gain {got:.3f}",
                )
                ctx.close(mid.mean(), src.mean(), f"{what}: mean of tone", rel=0.1)
        elif ds * 0.5 / ds > 0 and spec["rel"] * 0.5 / ds < 0.45:
            ctx.check(got < 0.05, lambda: f"{what}: alias of tone at {spec['rel']} x nyquist, gain {got:.3f}")
            ctx.close(mid.mean(), src.mean(), f"{what}: mean of suppressed tone", rel=0.02)
    elif kind == "step" and len(out) > 60:
        # plateaus before and after the step are reached
        cut = len(src) * (1 + spec["seed"] % 7) // 8 // ds
        if cut > 3:
            ctx.check(
                np.allclose(out[: cut - 2], src[0], rtol=1e-6, atol=lsb),
                lambda: f"{what}: level before step is {out[: cut - 2]} instead of {src[0]}",
            )
        if len(out) - cut > 60:
            ctx.check(
                np.allclose(out[cut + 55 :], src[-1], rtol=1e-2, atol=max(lsb, 1e-2 * span)),
                lambda: f"{what}: level after step is {out[cut + 55 :]} instead of {src[-1]}",
            )


def ds_gen(rng) -> dict:
    n = rng.choice([rng.randint(1, 40), rng.randint(200, 6000), rng.randint(6000, 30_000)])
    ds = rng.choice([1, 1.0, 2, 3, 5, 7, 10, 20, 50, 2.7, 4.999, rng.randint(2, 60), rng.randint(100, 2000)])
    start = rng.choice([0, 0, rng.randrange(n), rng.randrange(n)])
    end = rng.choice([None, None, n, rng.randint(start, n), n + 100])
    return {
        "n": n,
        "ds": ds,
        "start": start,
        "end": end,
        "block": rng.choice([rng.randint(1, 60), rng.randint(50, 3000), 1000, 10_000, 4_000_000]),
        "sig": signal_spec(rng),
        "dst": rng.choice(["none", "array", "dataset", "kw_array", "dataset_u4"]),
        "src": rng.choice(["dataset", "array"]),
        "is_time": rng.random() < 0.3,
    }


@facet("P25", "stream", seeded(ds_gen), quick=160, thorough=4000, shards=2,
       rule="factor > 1, at least 3 blocks and 10 output samples, or a cut window")
def run_stream(case, ctx) -> None:
    n, ds = case["n"], max(1, math.floor(case["ds"]))
    end = n if case["end"] is None else min(n, case["end"])
    start = min(case["start"], end)
    size = end - start
    sig = make_signal(case["sig"], n, ds)
    if case["sig"]["kind"] in ("step", "ramp", "tone"):
        sig = np.zeros(n)
        sig[start:end] = make_signal(case["sig"], size, ds) if size else 0
    times = ns_times(n)
    path = make_h5(ctx.tmp / "src.h5", times, sig, sig, chunk=1000)
    ctx.label("time" if case["is_time"] else case["sig"]["kind"], case["dst"], f"ds{min(ds, 10)}")
    ctx.nontrivial((ds > 1 and size > 3 * case["block"] and size // ds >= 10) or 0 < start < end < n)
    with silence(), Reader(path, verbose=False) as shpr, h5py.File(ctx.tmp / "ext.h5", "w") as ext:
        shpr.max_elements = case["block"]
        src = (shpr.ds_time if case["is_time"] else shpr.ds_voltage) if case["src"] == "dataset" else (
            times if case["is_time"] else sig.copy()
        )
        dst = None
        if "array" in case["dst"]:
            dst = np.empty(3 if case["n"] % 2 else n + 5, dtype="u8" if case["is_time"] else float)
        elif "dataset" in case["dst"]:
            dtype = "u8" if case["is_time"] else "u4" if "u4" in case["dst"] else "f8"
            dst = ext.create_dataset("x", (0,), maxshape=(None,), chunks=(100,), dtype=dtype)
        if case["dst"] == "kw_array":
            out = shpr.downsample(
                data_src=src, data_dst=dst, start_n=case["start"], end_n=case["end"],
                ds_factor=case["ds"], is_time=case["is_time"],
            )
        else:
            out = shpr.downsample(src, dst, case["start"], case["end"], case["ds"], is_time=case["is_time"])
        if size == 0:
            return
        if dst is not None:
            ctx.check(out is dst, "provided destination has to be filled and returned")
        got = np.asarray(out[:])
        shpr.max_elements = 4_000_000
        if case["is_time"]:
            want = times[start:end][::ds][: size // ds]
            ctx.eq(len(got), len(want), f"length of time (n={size}, factor={ds}, block={case['block']})")
            ctx.check(
                np.array_equal(got, want.astype(got.dtype)),
                lambda: f"time is not every {ds}th sample: {np.diff(got.astype(np.int64))[:20]}",
            )
            return
        lsb = 1.001 if "u4" in case["dst"] else 1e-3
        judge_signal(ctx, case["sig"], sig[start:end], got, ds, "voltage", lsb)
        # same result independent of the size of blocks
        ref = np.asarray(shpr.downsample(src, None, case["start"], case["end"], case["ds"])[:])
        if "u4" in case["dst"]:
            ref = np.clip(ref, 0, 2**32 - 1)
        scale = max(1.0, float(np.abs(sig).max()))
        ctx.check(
            len(ref) == len(got) and np.allclose(got, ref, rtol=1e-7, atol=1.001 if lsb > 1 else 1e-7 * scale),
            lambda: f"result depends on block-size {case['block']}: {got[:8]} vs {ref[:8]} (len {len(got)}/{len(ref)})",
        )


def cut_gen(rng) -> dict:
    n = rng.choice([rng.randint(500, 3000), rng.randint(3000, 40_000), 20_000, 10_400])
    dur = round(n / FS, 4)
    pick = lambda: rng.choice([None, 0, round(rng.uniform(0, dur), 4), round(rng.uniform(0, dur), 4), round(rng.uniform(-0.1, dur + 0.1), 4)])  # noqa: E731
    return {
        "n": n,
        "start": rng.choice([None, pick()]),
        "end": rng.choice([None, pick(), dur, round(rng.uniform(dur * 0.8, dur), 4)]),
        "ds": rng.choice([1, 1, 1.0, 2, 2.7, 3, 3.0, 5, 10, 25, rng.randint(1, 30), round(rng.uniform(0.1, 9), 2)]),
        "block": rng.choice([4_000_000, rng.randint(10, 5000), 1000]),
        "sigs": [signal_spec(rng), signal_spec(rng)],
        "mode": rng.choice(["harvester", "emulator"]),
        "dtype": rng.choice(["ivsample", "ivsample", "isc_voc"]),
        "window": rng.choice([0, 0, 5, 1000]),
        "gains": [rng.uniform(1e-9, 1e-6), rng.uniform(-1, 1), rng.uniform(1e-12, 1e-9), rng.uniform(-1e-3, 1e-3)],
        "host": rng.choice([None, "sheep1", "unnamed µ", "Sheep-X"]),
        "config": rng.choice([None, {}, {"virtual_harvester": {"name": "x", "voltage_step_mV": 3.5}, "l": [1, 2.5, "a"]}]),
        "name": rng.choice(["rec.h5", "a.b.h5", "x y.h5"]),
        "t0": rng.choice([0, T0, T0 + 12345]),
        "near": rng.choice([None, "start", "end"]),
    }


@facet("P25", "cut_file", seeded(cut_gen), quick=90, thorough=2500, shards=2,
       rule="a file was produced from a cut window or with factor > 1")
def run_cut(case, ctx) -> None:
    n = case["n"]
    ds = math.floor(case["ds"])
    dtype = case["dtype"] if case["mode"] == "harvester" else "ivsample"
    sigs = [make_signal(spec, n, max(1, ds)) for spec in case["sigs"]]
    times = ns_times(n, t0=case["t0"])
    gains = case["gains"]
    path = make_h5(
        ctx.tmp / case["name"], times, *sigs, mode=case["mode"], datatype=dtype, window=case["window"],
        hostname=case["host"], cal={"voltage": (gains[0], gains[1]), "current": (gains[2], gains[3])},
    )
    if case["config"] is not None:
        with h5py.File(path, "r+") as h5f:
            h5f.attrs["config"] = yaml.safe_dump(case["config"])
    before = h5_dump(path)
    dur = n / FS
    start = max(0, case["start"] or 0)
    end = dur if case["end"] is None else min(dur, case["end"])
    s, e = round(start * FS), round(end * FS)
    refuse = e < s or case["ds"] < 1 or (e - s) / ds < 1000
    full = s == 0 and e == n
    ctx.label("refuse" if refuse else "full" if full else "cut", f"ds{min(9, ds)}")
    with silence(), Reader(path, verbose=False) as shpr:
        shpr.max_elements = case["block"]
        if refuse:
            ctx.raises(
                lambda: shpr.cut_and_downsample_to_file(case["start"], case["end"], case["ds"]),
                f"cut [{case['start']}, {case['end']}] with factor {case['ds']} of {n} samples",
                (ValueError,),
            )
            ctx.eq([p.name for p in ctx.tmp.iterdir()], [case["name"]], "files after refused request")
            return
        out = shpr.cut_and_downsample_to_file(case["start"], case["end"], case["ds"])
        again = shpr.cut_and_downsample_to_file(case["start"], case["end"], case["ds"]) if not full or ds > 1 else out
        ctx.eq(again, out, "path of repeated request")
        near = [max(case["start"] or 0, 0), end]
        if case["near"] is not None:
            near[case["near"] == "end"] += 0.003 if case["near"] == "start" else -0.003
        near_s, near_e = round(near[0] * FS), round(near[1] * FS)
        if case["near"] is not None and near[1] > 0 and (near_e - near_s) / ds >= 1000:
            # cuts which differ by milliseconds never share one file
            other = shpr.cut_and_downsample_to_file(near[0], near[1], case["ds"])
            ctx.check(other != out, f"cuts {case['start']}:{case['end']} and {near} s are both named {other.name}")
            near_n = (near_e - near_s) // ds if ds > 1 else (near_e - near_s) // 10_000 * 10_000
            with h5py.File(other, "r") as res:
                got_t = res["data/time"][:]
                ctx.check(
                    np.array_equal(got_t, times[near_s:near_e][::ds][:near_n]) or (ds == 1 and np.array_equal(got_t, times[near_s:near_e])),
                    f"time of second cut {near}: {got_t[:2]}..{got_t[-2:]} ({len(got_t)})",
                )
            other.unlink()
            ctx.label("second cut")
    ctx.check(out.exists(), "result exists")
    ctx.eq(h5_dump(path), before, "source-file after downsampling")
    if full and ds == 1:
        return
    ctx.nontrivial()
    ctx.eq(out.parent.resolve(), ctx.tmp.resolve(), "folder of result")
    ctx.eq(sorted(p.name for p in ctx.tmp.iterdir()), sorted([case["name"], out.name]), "files of result")
    ctx.check(out.name.startswith(case["name"][:-3] + ".") and out.suffix == ".h5", f"name {out.name}")
    ctx.eq(f"downsample_x{ds}." in out.name, ds > 1, f"factor {ds} in name {out.name}")
    if start > 0 and end < dur:
        ctx.check("cut_" in out.name, f"name {out.name} should show the cut")
    with h5py.File(out, "r") as res:
        got_t = res["data/time"][:]
        if ds == 1 and len(got_t) < e - s:
            # recordings at full rate consist of whole buffers (see P01)
            e = s + (e - s) // 10_000 * 10_000
        want_t = times[s:e][::ds][: (e - s) // ds]
        ctx.check(
            np.array_equal(got_t, want_t),
            lambda: f"time after cut {s}:{e} factor {ds}: {len(got_t)} samples {got_t[:3]}..{got_t[-3:]},"
            f" expected {len(want_t)} {want_t[:3]}..{want_t[-3:]}",
        )
        for name, sig, spec in zip(["voltage", "current"], sigs, case["sigs"]):
            got = res["data"][name][:]
            ctx.eq(len(got), len(want_t), f"length of {name} vs time")
            spec = dict(spec) if full or spec["kind"] == "const" else {"kind": "any"}
            if e > s:
                judge_signal(ctx, spec, sig[s:e], got, ds, name, 1.001)
        for key in ("voltage", "current", "time"):
            for att in ("gain", "offset"):
                ctx.eq(float(res["data"][key].attrs[att]), float(before["data/" + key]["attrs"][att]), f"{key}.{att}")
        ctx.eq(res.attrs["mode"], case["mode"], "mode of result")
        ctx.eq(res["data"].attrs["datatype"], dtype, "datatype of result")
        ctx.eq(int(res["data"].attrs["window_samples"]), case["window"], "window of result")
    with silence(), Reader(out, verbose=False) as shpd:
        ctx.eq(shpd.get_hostname(), case["host"] or "unknown", "hostname of result")
        ctx.eq(shpd.get_config(), case["config"] or {}, "config of result")
        ctx.eq(int(shpd["ds_factor"]) if not isinstance(shpd["ds_factor"], float) else shpd["ds_factor"], ds,
               "stored factor")
        ctx.close(shpd.samplerate_sps, FS / ds, "sample-rate of result", rel=1e-3, abs_=1)
        ctx.check(shpd.is_valid(), "result is valid")


def plot_gen(rng) -> dict:
    n = rng.choice([rng.randint(1, 30), rng.randint(500, 20_000), rng.randint(2000, 8000), rng.randint(2000, 30_000)])
    dur = n / FS
    lo = lambda: rng.choice([None, None, 0, round(rng.uniform(0, dur / 2), 5), round(rng.uniform(-0.1, dur), 4)])  # noqa: E731
    hi = lambda: rng.choice([None, None, dur, round(rng.uniform(dur / 2, dur), 5), round(rng.uniform(0, dur + 0.1), 4)])  # noqa: E731
    return {
        "n": n, "start": lo(), "end": hi(), "limit": rng.choice([100, 777, 5000, 4_000_000, rng.randint(20, 2000)]),
        "sigs": [{"kind": "const", "seed": rng.randrange(2**16), "rel": 1}, signal_spec(rng)],
        "rel": rng.choice([True, False]), "t0": rng.choice([0, T0]),
        "gains": [rng.uniform(1e-9, 1e-6), rng.uniform(-1, 1), rng.uniform(1e-12, 1e-9), rng.uniform(-1e-3, 1e-3)],
        "host": rng.choice([None, "sheep1"]),
    }


@facet("P25", "plot_data", seeded(plot_gen), quick=90, thorough=2500,
       rule="plot-data was produced and reduced in size")
def run_plot(case, ctx) -> None:
    n, gains = case["n"], case["gains"]
    dur = n / FS
    start = max(0, case["start"] or 0)
    end = dur if case["end"] is None else min(dur, case["end"])
    s, e = round(start * FS), round(end * FS)
    sigs = [make_signal(spec, n, 1) for spec in case["sigs"]]
    times = ns_times(n, t0=case["t0"])
    path = make_h5(ctx.tmp / "src.h5", times, *sigs, hostname=case["host"],
                   cal={"voltage": (gains[0], gains[1]), "current": (gains[2], gains[3])})
    before = h5_dump(path)
    with silence(), Reader(path, verbose=False) as shpr:
        shpr.max_elements = case["limit"]
        data = shpr.generate_plot_data(case["start"], case["end"], relative_timestamp=case["rel"])
    ctx.eq(h5_dump(path), before, "source-file after plotting")
    if e - s < 5:
        ctx.label("small")
        ctx.check(data is None, f"only {e - s} samples, but got {data}")
        return
    ctx.check(data is not None, f"no plot-data for window {s}:{e}")
    ctx.eq(data["name"], case["host"] or "unknown", "name")
    t, v, i = (np.asarray(data[key]) for key in ("time", "voltage", "current"))
    ctx.check(len(t) == len(v) == len(i), f"lengths {len(t)} {len(v)} {len(i)}")
    size = e - s
    ctx.label("reduced" if len(t) < size else "complete")
    ctx.nontrivial(len(t) < size)
    ctx.check(0 < len(t) <= min(size, 2 * case["limit"] + 1), f"{len(t)} points of {size}, limit {case['limit']}")
    if size <= case["limit"]:
        ctx.eq(len(t), size, "short windows are plotted completely")
    else:
        ctx.check(len(t) >= 0.45 * case["limit"], f"only {len(t)} points of {size}, limit {case['limit']}")
    t_ref = times[s:e].astype(float) * 1e-9 - (case["t0"] * 1e-9 if case["rel"] else 0)
    tol = 2e-6
    ctx.close(t[0], t_ref[0], "first time", rel=0, abs_=tol)
    # covers the window
    step = size / len(t) / FS
    ctx.check(abs(t_ref[-1] - t[-1]) <= 2 * step + tol, f"plot ends at {t[-1]}, window at {t_ref[-1]}")
    if len(t) > 2:
        dif = np.diff(t)
        ctx.check(dif.max() - dif.min() <= 2 * tol, f"time is not evenly spaced: {dif.min()} .. {dif.max()}")
    want = sigs[0][0] * gains[0] + gains[1]
    ctx.check(np.allclose(v, want, rtol=1e-6, atol=1e-9), lambda: f"constant voltage {want} plotted as {v.min()}..{v.max()}")
    si = sigs[1][s:e] * gains[2] + gains[3]
    if len(t) == size:
        ctx.check(np.allclose(i, si, rtol=1e-9, atol=1e-15), "current of complete window")
    else:
        span = si.max() - si.min()
        near = 1e-12 + 1e-6 * np.abs(si).max()
        ctx.check(
            i.min() >= si.min() - 0.3 * span - near and i.max() <= si.max() + 0.3 * span + near,
            lambda: f"current {i.min()}..{i.max()} vs source {si.min()}..{si.max()}",
        )
    ctx.close(data["start_s"], start, "start of window", abs_=1e-9)
    ctx.close(data["end_s"], end, "end of window", abs_=1e-9)


# --------------------------------------------------------------------------- P26

TEXTS = ["boot", "PRU-Util too high", "warn 42", "a; b, c", "no route", "[sheep] started", "x" * 200, "0", "-"]


def export_gen(rng) -> dict:
    n = rng.choice([0, 1, 2, rng.randint(3, 40)])
    cols = []
    for num in range(rng.randint(1, 4)):
        wide = rng.choice([0, 0, 0, 2, 5])
        cols.append(
            {
                "name": rng.choice(["cpu_util", "value", "a", "zeta", "level"]) + str(num),
                "wide": wide,
                "kind": rng.choice(["u1", "u4", "i4", "f4", "f8"]),
                "gain": rng.choice([None, None, 1.0, 1e-9, rng.uniform(-2, 2)]),
                "offset": rng.choice([None, None, 0.0, 1.0, rng.uniform(-5, 5)]),
                "seed": rng.randrange(2**16),
            }
        )
    return {
        "n": n,
        "cols": cols,
        "group": rng.choice(["sys_util", "ptp", "timesync", "data2"]),
        "sep": rng.choice([";", ",", "|", "; ", " ;", "#", "::", " ;;; "]),
        "raw": rng.random() < 0.4,
        "nested": rng.random() < 0.4,
        "existing": rng.random() < 0.15,
        "external": rng.random() < 0.3,
        "times": sorted(T0 + rng.randrange(10**13) for _ in range(n)),
        "tgain": rng.choice([None, 1e-9, 1e-9]),
        "no_time": rng.random() < 0.05,
        "name": rng.choice(["rec.h5", "a.b.h5", "x y.h5"]),
    }


def column_values(col: dict, n: int) -> np.ndarray:
    shape = (n, col["wide"]) if col["wide"] else (n,)
    rng = np.random.Generator(np.random.PCG64(col["seed"]))
    kind = np.dtype(col["kind"])
    if kind.kind == "f":
        return (rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 6)).astype(kind)
    info = np.iinfo(kind)
    return rng.integers(info.min, info.max, size=shape, endpoint=True).astype(kind)


def small_rec(path, **kwargs) -> None:
    make_h5(path, ns_times(20_000), np.full(20_000, 1000), np.full(20_000, 100), hostname="sheep0", **kwargs)


@facet("P26", "csv", seeded(export_gen), quick=150, thorough=4000,
       rule="at least two rows and a column with own or missing calibration were exported")
def run_csv(case, ctx) -> None:
    from datetime import datetime  # noqa: PLC0415
    from datetime import timezone  # noqa: PLC0415

    path = ctx.tmp / case["name"]
    small_rec(path)
    src = ctx.tmp / "other.hdf5" if case["external"] else path
    n = case["n"]
    data = {}
    names: dict = {}
    with h5py.File(src, "a") as h5f:
        grp = h5f.create_group(case["group"])
        if not case["no_time"]:
            grp["time"] = np.array(case["times"], dtype="u8")
            grp["time"].attrs["description"] = "system time [ns]"
            grp["time"].attrs["unit"] = "s"
            if case["tgain"] is not None:
                grp["time"].attrs["gain"] = case["tgain"]
        for col in case["cols"]:
            vals = data[col["name"]] = column_values(col, n)
            dset = grp.create_dataset(col["name"], data=vals)
            names[col["name"]] = [f"{col['name']}_{i} [%]" for i in range(max(1, col["wide"]))]
            dset.attrs["description"] = ", ".join(names[col["name"]])
            for att in ("gain", "offset"):
                if col[att] is not None:
                    dset.attrs[att] = col[att]
        if case["nested"]:
            grp.create_group("aa_nested")["time"] = [1, 2]
            grp.create_group("zz_nested").attrs["x"] = 1
    dest = path.with_suffix(f".{case['group']}.csv")
    if case["existing"]:
        dest.write_text("keep")
    before = h5_dump(path)
    present = sorted(p.name for p in ctx.tmp.iterdir())
    with silence(), Reader(path, verbose=False) as shpr, h5py.File(src, "r") as h5f:
        res = shpr.save_csv(h5f[case["group"]], case["sep"], raw=case["raw"])
        if case["no_time"] or n == 0 or case["existing"]:
            ctx.label("skip")
            ctx.eq(res, 0, "count of skipped export")
            if case["existing"]:
                ctx.eq(dest.read_text(), "keep", "existing csv-file")
            ctx.eq(sorted(p.name for p in ctx.tmp.iterdir()), present, "files after skipped export")
            return
    ctx.eq(res, n, "count of exported entries")
    ctx.eq(h5_dump(path), before, "source after export")
    ctx.check(dest.exists(), f"csv {dest.name} was not written, got {[p.name for p in ctx.tmp.iterdir()]}")
    lines = dest.read_text(encoding="utf-8-sig").splitlines()
    sep = case["sep"].strip()
    head = [part.strip() for part in lines[0].split(sep)]
    want_names = [nam for col in case["cols"] for nam in names[col["name"]]]
    ctx.eq(head[0], "system time [ns]", "first column")
    ctx.eq(sorted(head[1:]), sorted(want_names), "columns of header")
    ctx.eq(len(lines) - 1, n, "rows")
    ctx.label("raw" if case["raw"] else "si", f"cols{len(want_names)}")
    ctx.nontrivial(n >= 2 and (case["raw"] or any(c["gain"] is None or c["offset"] for c in case["cols"])))
    for row, line in enumerate(lines[1:]):
        parts = [part.strip() for part in line.split(sep)]
        ctx.eq(len(parts), len(head), f"columns of row {row}: {line}")
        stamp = datetime.strptime(parts[0], "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc)
        ctx.close(stamp.timestamp(), case["times"][row] * 1e-9, f"time of row {row}", rel=0, abs_=3e-6)
        for col in case["cols"]:
            vals = np.atleast_1d(data[col["name"]][row])
            for pos, nam in enumerate(names[col["name"]]):
                want = vals[pos].item()
                if not case["raw"]:
                    want = want * (1.0 if col["gain"] is None else col["gain"]) + (col["offset"] or 0.0)
                ctx.close(
                    float(parts[head.index(nam)]), want, f"row {row} of {nam} (raw={case['raw']}, {col})",
                    rel=1e-6 if col["kind"] == "f4" else 1e-12, abs_=1e-6 if col["kind"] == "f4" else 1e-12,
                )


def log_gen(rng) -> dict:
    n = rng.choice([0, 1, 2, rng.randint(3, 40)])
    return {
        "n": n,
        "group": rng.choice(["sheep", "kernel", "uart", "dmesg"]),
        "times": sorted(rng.choice([T0, T0, T0, 0]) + rng.choice([rng.randrange(10**13), 0]) for _ in range(n)),
        "msgs": [rng.choice(TEXTS) + f" #{i}." for i in range(n)],
        "levels": [rng.choice([0, 10, 20, 29, 30, 31, 39, 40, 50, 255]) for _ in range(n)],
        "has_level": rng.random() < 0.8,
        "nested": rng.random() < 0.3,
        "existing": rng.random() < 0.15,
        "stamp": rng.random() < 0.7,
        "external": rng.random() < 0.2,
        "min_level": rng.choice([0, 10, 20, 30, 31, 40, 41, 256]),
        "limit": rng.choice([1, 2, 3, 10, 100]),
        "show": rng.random() < 0.8,
        "no_time": rng.random() < 0.05,
        "damaged": sorted({rng.randrange(n) for _ in range(rng.choice([0, 0, 1, 3]))}) if n > 1 else [],
    }


@facet("P26", "log", seeded(log_gen), quick=120, thorough=4000,
       rule="at least two entries were exported and some messages are above, some below the level")
def run_log(case, ctx) -> None:
    import logging  # noqa: PLC0415
    from datetime import datetime  # noqa: PLC0415
    from datetime import timezone  # noqa: PLC0415

    path = ctx.tmp / "rec.h5"
    small_rec(path)
    src = ctx.tmp / "other.hdf5" if case["external"] else path
    n = case["n"]
    with h5py.File(src, "a") as h5f:
        grp = h5f.create_group(case["group"])
        if not case["no_time"]:
            grp["time"] = np.array(case["times"], dtype="u8")
        if case["damaged"]:  # checksums need text with fixed length
            case["msgs"] = [f"entry #{pos}." for pos in range(n)]
            grp.create_dataset("message", data=np.array(case["msgs"], dtype="S20"), chunks=(1,), fletcher32=True)
        else:
            grp.create_dataset("message", data=case["msgs"], dtype=h5py.special_dtype(vlen=str), shape=(n,))
        if case["has_level"]:
            grp["level"] = np.array(case["levels"], dtype="u1")
        if case["nested"]:
            grp.create_group("aa_nested")["time"] = [1, 2]
            grp.create_group("zz_nested").attrs["x"] = 1
        places = [grp["message"].id.get_chunk_info(pos).byte_offset for pos in case["damaged"]]
    if places:
        raw = bytearray(src.read_bytes())
        for place in places:
            raw[place + 1] ^= 0x55  # checksum of this message does not match anymore
        src.write_bytes(bytes(raw))
    dest = path.with_suffix(f".{case['group']}.log")
    if case["existing"]:
        dest.write_text("keep")
    before = path.read_bytes()
    skip = case["no_time"] or n == 0 or case["existing"]
    with silence(), Reader(path, verbose=False) as shpr, h5py.File(src, "r") as h5f:
        res = shpr.save_log(h5f[case["group"]], add_timestamp=case["stamp"])
        ctx.eq(res, 0 if skip else n, "count of exported entries")
        if not case["no_time"] and not case["damaged"]:
            seen: list = []
            handler = logging.Handler()
            handler.emit = lambda rec: seen.append(rec.getMessage())
            logging.getLogger().addHandler(handler)
            try:
                count = shpr.warn_logs(case["group"], case["min_level"], case["limit"], show=case["show"])
            finally:
                logging.getLogger().removeHandler(handler)
            hits = [] if case["external"] or not case["has_level"] else [
                pos for pos in range(n) if case["levels"][pos] >= case["min_level"]
            ]
            ctx.eq(count, len(hits), f"messages with level >= {case['min_level']} in {case['levels']}")
            shown = [pos for pos in range(n) if any(case["msgs"][pos] in txt for txt in seen)]
            if shown or (seen and hits and case["show"]):
                ctx.label("shown")
                ctx.eq(shown, hits[: case["limit"]] if case["show"] else [], "messages shown")
    if case["existing"]:
        ctx.eq(dest.read_text(), "keep", "existing log-file")
        return
    ctx.check(path.read_bytes() == before, "source changed by export")
    ctx.eq(dest.exists(), not skip, "existence of log-file")
    if skip:
        ctx.label("skip")
        return
    lines = dest.read_text(encoding="utf-8-sig").splitlines()
    ctx.eq(len(lines), n, "lines")
    ctx.nontrivial(n >= 2 and case["has_level"])
    for row, line in enumerate(lines):
        parts = line.split("\t")
        if row in case["damaged"]:
            ctx.label("damaged")
            ctx.check(len(parts[-1]) > 0, f"unreadable message leaves no trace in {line!r}")
        else:
            ctx.check(case["msgs"][row] in line, f"message {case['msgs'][row]!r} missing in {line!r}")
        if case["stamp"]:
            stamp = datetime.strptime(parts[0].rstrip(":"), "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc)
            ctx.close(stamp.timestamp(), case["times"][row] * 1e-9, f"time of row {row}", rel=0, abs_=3e-6)
        else:
            ctx.eq(parts[0], "", f"no timestamp in row {row}")
        ctx.eq(len(parts), 3 if case["has_level"] else 2, f"columns of {line!r}")
        if case["has_level"]:
            ctx.check(str(case["levels"][row]) in parts, f"level {case['levels'][row]} missing in {line!r}")


# --------------------------------------------------------------------------- P27

KINDS = ["good", "good", "good", "slow", "logs", "logs", "gpio", "jump", "unaligned", "garbage", "empty", "no_group",
         "no_sets", "folder", "text", "upper"]
PINS = {0: "gpio0", 3: "uart_tx", 7: "pwr_good"}


def uart_events(text: str, t0: int, baud: int = 9600) -> tuple[list[int], list[int]]:
    """Register-states (all pins) of a transmission, idle-high, 8N1."""
    tick = 1e9 / baud
    pos, out = 30.0, [(0.0, 1)]
    for pos_char, char in enumerate(text):
        bits = [0] + [(ord(char) >> b) & 1 for b in range(8)] + [1]
        for k, bit in enumerate(bits):
            if out[-1][1] != bit:
                out.append((pos + k, bit))
        pos += 10 + (pos_char % 3)
    times = [t0 + round(p * tick) for p, _ in out]
    return times, [bit << 3 for _, bit in out]


# kinds of files which matter most for a command
FOCUS = {"downsample": ["slow", "good"], "extract-uart": ["gpio"], "extract-gpio": ["gpio"], "extract-meta": ["logs"]}
CSV_GROUPS = ("ptp", "sys_util", "pru_util", "sysutil", "timesync")
LOG_GROUPS = ("sheep", "kernel", "phc2sys", "uart", "shepherd-log", "dmesg", "exceptions")


def file_gen(rng, num: int, cmd: str) -> dict:
    kind = rng.choice(KINDS) if rng.random() < 0.6 else rng.choice(FOCUS.get(cmd, KINDS))
    return {
        "kind": kind,
        # folders may hold files with the same name
        "name": f"{rng.choice(['hrv', 'emu.x', 'rec 1'])}_{num}" if rng.random() < 0.7 else "same",
        "csvs": rng.sample(CSV_GROUPS, rng.randint(0, 3)),
        "logs": [
            {"name": name, "n": rng.choice([0, 1, 2, 4]), "level": rng.random() < 0.6, "seed": rng.randrange(2**16)}
            for name in rng.sample(LOG_GROUPS, rng.randint(0, 4))
        ],
        "dir": rng.choice(["", "", "", "sub", "sub/deep"]),
        "seed": rng.randrange(2**16),
        "step": 10_000 if kind != "slow" else rng.choice([100_000, 20_000, 50_000]),
        "text": "".join(rng.choice(["hello", "x1", "ab cd", "U"]) + "\n" for _ in range(rng.randint(1, 3))),
    }


def build_file(root, spec: dict) -> None:
    folder = root / spec["dir"]
    folder.mkdir(parents=True, exist_ok=True)
    kind = spec["kind"]
    path = folder / (spec["name"] + {"text": ".txt", "upper": ".H5"}.get(kind, ".h5"))
    if kind == "garbage":
        path.write_bytes(bytes(range(256)) * 20)
        return
    if kind == "empty":
        path.write_bytes(b"")
        return
    if kind == "folder":
        path.mkdir()
        return
    if kind == "text":
        path.write_text("no recording")
        return
    n = 20_000 if kind != "unaligned" else 20_003
    times = ns_times(n, step=spec["step"])
    if kind == "jump":
        times = times.copy()
        times[n // 2 :] += np.uint64(20_000_000)
    volt = series({"kind": "ramp", "seed": spec["seed"]}, n, hi=2**30)
    extra: dict = {}
    if kind == "gpio":
        t, v = uart_events(spec["text"], T0)
        extra["gpio"] = {"times": t, "values": v, "pins": PINS}
    make_h5(path, times, volt, np.full(n, 1000 + spec["seed"]), hostname="sheep0", **extra)
    with h5py.File(path, "r+") as h5f:
        for name, txt in (("time", "system time [s]"), ("voltage", "voltage [V]"), ("current", "current [A]")):
            h5f["data"][name].attrs["description"] = txt
        if kind == "logs":
            for name in spec["csvs"]:
                grp = h5f.create_group(name)
                grp["time"] = np.array([T0, T0 + 10**9], dtype="u8")
                grp["value"] = np.array([5, -7], dtype="i8")
                grp["time"].attrs["description"] = "system time [ns]"
                grp["value"].attrs["description"] = "offset [ns]"
            for log in spec["logs"]:
                grp = h5f.create_group(log["name"])
                num = log["n"]
                grp["time"] = T0 + np.arange(num, dtype="u8") * 10**9
                texts = [f"m{log['seed']}_{i}" for i in range(num)]
                grp.create_dataset("message", data=texts, dtype=h5py.special_dtype(vlen=str), shape=(num,))
                if log["level"]:
                    grp["level"] = np.array([(10, 40, 20, 50)[(i + log["seed"]) % 4] for i in range(num)], dtype="u1")
        if kind == "no_group":
            del h5f["data"]
        if kind == "no_sets":
            del h5f["data"]["voltage"]


READABLE = ("good", "slow", "logs", "gpio", "jump", "unaligned", "upper")


def cli_gen(rng) -> dict:
    cmd = rng.choice(["validate", "validate", "downsample", "downsample", "extract", "extract-meta", "extract-uart", "extract-gpio"])
    files = {}
    for num in range(rng.randint(1, 5)):
        spec = file_gen(rng, num, cmd)
        files.setdefault((spec["dir"], spec["name"]), spec)
    files = list(files.values())
    dur = 0.2
    return {
        "files": files,
        "cmd": cmd,
        "recurse": rng.choice([[], [], ["-a"], ["--recurse"]]),
        "single": rng.randrange(len(files)) if rng.random() < 0.25 else None,
        "start": rng.choice([None, None, 0, round(rng.uniform(0, dur / 2), 3)]),
        "end": rng.choice([None, None, round(rng.uniform(dur / 2, dur), 3), 99]),
        "factor": rng.choice([None, None, None, 1, 2, 5, 3.7, 10, 0.5, 100] if cmd == "downsample" else [None, 1, 1, 2, 5, 3.7, 10, 0.5]),
        "rate": rng.choice([None, 20_000, 5_000, 5_000, 1_000, 0]),
        "existing": [
            rng.choice([".uart_from_wf.log", ".waveform.uart_tx.csv", ".yaml", ".ptp.csv", ".sheep.log", ".uart.log"])
            for _ in range(rng.choice([0, 0, 0, 1, 3]))
        ],
        "sep": rng.choice([None, ";", "|"]),
        "raw": rng.random() < 0.5,
        "verbose": rng.random() < 0.3,
        "twice": rng.random() < 0.15,
    }


def snapshot(root) -> dict:
    """Every file below root, recordings by content."""
    out = {}
    for path in sorted(root.rglob("*")):
        if path.is_file():
            name = str(path.relative_to(root))
            try:
                out[name] = h5_dump(path)
            except OSError:
                out[name] = path.read_bytes()
    return out


@facet("P27", "commands", seeded(cli_gen), quick=110, thorough=3000, shards=2,
       rule="at least one readable file had to be processed next to another file or with options")
def run_cli(case, ctx) -> None:
    from click.testing import CliRunner  # noqa: PLC0415

    from shepherd_data.cli import cli  # noqa: PLC0415

    root, twin = ctx.tmp / "data", ctx.tmp / "twin"
    for base in (root, twin):
        base.mkdir()
        for spec in case["files"]:
            build_file(base, spec)
            for ext in case["existing"]:
                (base / spec["dir"] / (spec["name"] + ext)).write_text("keep")
    cmd = case["cmd"]
    if case["single"] is not None:
        spec = case["files"][case["single"]]
        ext = {"text": ".txt", "upper": ".H5"}.get(spec["kind"], ".h5")
        target = root / spec["dir"] / (spec["name"] + ext)
        chosen = [spec] if spec["kind"] not in ("text", "folder") else []
    else:
        target = root
        chosen = [
            spec for spec in case["files"]
            if (spec["dir"] == "" or case["recurse"]) and spec["kind"] not in ("text", "folder", "upper")
        ]
    args = (["-v"] if case["verbose"] else []) + [cmd, str(target)] + case["recurse"]
    if cmd in ("extract", "downsample"):
        if case["start"] is not None:
            args += ["-s", str(case["start"])]
        if case["end"] is not None:
            args += ["--end", str(case["end"])]
        if case["factor"] is not None:
            args += ["-f", str(case["factor"])]
    if cmd == "downsample" and case["rate"] is not None:
        args += ["--sample-rate", str(case["rate"])]
    if cmd in ("extract", "extract-meta", "extract-gpio") and case["sep"] is not None:
        args += ["--separator", case["sep"]]
    if cmd == "extract" and case["raw"]:
        args.append("--raw")
    ctx.label(cmd, *[f"kind-{spec['kind']}" for spec in chosen])
    before = snapshot(root)
    with silence():
        res = CliRunner().invoke(cli, args)
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        kinds = [spec["kind"] for spec in chosen]
        ctx.fail(f"command {args} crashed with {res.exception!r}, files {kinds}")
    if cmd == "validate":
        valid = all(spec["kind"] in ("good", "logs", "gpio", "upper") for spec in chosen)
        # only reported as invalid: jump in time, other sample-rate, unreadable
        sure_bad = any(spec["kind"] in ("jump", "garbage", "empty", "no_group", "no_sets", "slow") for spec in chosen)
        if valid or sure_bad:
            ctx.eq(res.exit_code == 0, valid, f"validity of {[(s['kind'], s['name']) for s in chosen]}")
    else:
        ctx.eq(res.exit_code, 0, f"exit-code of {args}: {res.output}")
    after = snapshot(root)
    for name, content in before.items():
        ctx.eq(after.get(name), content, f"source-file {name} after {cmd}")
    readable = [spec for spec in chosen if spec["kind"] in READABLE]
    ctx.nontrivial(bool(readable) and (len(case["files"]) > 1 or len(args) > 3))
    # what the library does for each file by itself
    with silence():
        for spec in readable:
            path = twin / spec["dir"] / (spec["name"] + (".H5" if spec["kind"] == "upper" else ".h5"))
            api_equivalent(case, cmd, spec, path)
    want = snapshot(twin)
    sep = case["sep"] or ";"
    uart = [name for name in after if name.endswith(".uart_from_wf.log")]
    ctx.eq(sorted(set(after) - set(uart)), sorted(set(want) - set(uart)), f"files after {args}")
    for name in set(want) - set(uart):
        ctx.eq(after[name], want[name], f"content of {name} after {args}")
    if cmd == "extract-uart":
        specs = {f"{s['dir']}/{s['name']}".lstrip("/") + ".uart_from_wf.log": s for s in readable if s["kind"] == "gpio"}
        ctx.eq(sorted(uart), sorted(set(specs) | {n for n in before if n.endswith(".uart_from_wf.log")}), "extracted uart-logs")
        specs = {name: spec for name, spec in specs.items() if name not in before}
        for name, spec in specs.items():
            lines = after[name].decode().splitlines()
            texts = spec["text"].splitlines()
            ctx.eq(len(lines), len(texts), f"lines in {lines}")
            for line, txt in zip(lines, texts):
                ctx.check(txt in line and line.startswith("2023-11-14 22:13:2"), f"{txt!r} in {line!r}")
    if cmd == "extract-gpio":
        for spec in readable:
            if spec["kind"] == "gpio":
                name = f"{spec['dir']}/{spec['name']}".lstrip("/") + ".waveform.uart_tx.csv"
                if name in before:
                    continue
                rows = after[name].decode().splitlines()
                ctx.eq({len(row.split(sep)) for row in rows}, {2}, f"columns of {rows[:3]}")
                ctx.check(len(rows) > 3, "rows")
    if case["twice"] and cmd in ("extract-meta", "extract-uart", "extract-gpio"):
        with silence():
            res = CliRunner().invoke(cli, args)
        ctx.eq(res.exit_code, 0, f"exit-code of second {args}: {res.exception!r}")
        ctx.eq(snapshot(root), after, f"files after second {args}")


def api_equivalent(case: dict, cmd: str, spec: dict, path) -> None:
    sep = case["sep"] or ";"
    factor = case["factor"]
    with Reader(path, verbose=False) as shpr:
        if cmd == "extract":
            if factor is None or factor < 1:
                factor = 1000
            try:
                out = shpr.cut_and_downsample_to_file(case["start"], case["end"], factor)
            except ValueError:
                return
            with Reader(out, verbose=False) as shpd:
                shpd.save_csv(shpd["data"], sep, raw=case["raw"])
        elif cmd == "downsample":
            if factor is None and case["rate"]:
                # the rate of recordings with gaps is an estimation
                sps = shpr.samplerate_sps if spec["kind"] == "jump" else 1e9 / spec["step"]
                factor = sps / case["rate"]
            if factor is None or factor < 1:
                factors = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
            else:
                factors = [factor]
            for val in factors:
                try:
                    shpr.cut_and_downsample_to_file(case["start"], case["end"], val)
                except ValueError:
                    break
        elif cmd == "extract-meta":
            shpr.save_metadata()
            if spec["kind"] == "logs":
                for name in spec["csvs"]:
                    shpr.save_csv(shpr[name], sep)
                for log in spec["logs"]:
                    shpr.save_log(shpr[log["name"]])
        elif cmd == "extract-gpio":
            for name, wave in shpr.gpio_to_waveforms().items():
                shpr.waveform_to_csv(name, wave, sep)


def plot_cli_gen(rng) -> dict:
    return {
        "files": [
            {"kind": rng.choice(["good", "good", "slow", "garbage", "no_group"]), "name": f"r{num}", "dir": rng.choice(["", "", "sub"]),
             "seed": rng.randrange(2**16), "step": rng.choice([10_000, 20_000]), "text": ""}
            for num in range(rng.randint(1, 4))
        ],
        "multi": rng.random() < 0.6,
        "recurse": rng.random() < 0.5,
        "start": rng.choice([None, 0.01, 0.3, 5]),
        "end": rng.choice([None, 0.1234, 0.35, 99]),
        "power": rng.random() < 0.5,
        "exists": rng.random() < 0.3,
    }


@facet("P27", "plots", seeded(plot_cli_gen), quick=24, thorough=160,
       rule="a plot was expected")
def run_cli_plot(case, ctx) -> None:
    import matplotlib  # noqa: PLC0415
    from click.testing import CliRunner  # noqa: PLC0415

    from shepherd_data.cli import cli  # noqa: PLC0415

    matplotlib.use("Agg")
    root = ctx.tmp / "data"
    root.mkdir()
    for spec in case["files"]:
        build_file(root, spec)
    chosen = [s for s in case["files"] if s["dir"] == "" or case["recurse"]]
    start = case["start"] or 0

    def window(spec: dict) -> str:
        end = min(20_000 * spec["step"] / 1e9, case["end"] or 99)
        return f"{start:.3f}_to_{end:.3f}".replace(".", "s")

    good = [
        s for s in chosen
        if s["kind"] in READABLE and start + 1e-3 < min(20_000 * s["step"] / 1e9, case["end"] or 99)
    ]
    multi = case["multi"] and len(chosen) > 1
    if multi:
        want = {f"data.multiplot_{window(s)}.png" for s in good}
    else:
        want = {"data/" + f"{s['dir']}/{s['name']}.plot_{window(s)}.png".lstrip("/") for s in good}
    if case["exists"]:
        for name in want:
            (ctx.tmp / name).write_bytes(b"keep")
    before = snapshot(ctx.tmp)
    args = ["plot", str(root), "-w", "4", "--height", "3"]
    args += ["-a"] if case["recurse"] else []
    args += ["--multiplot"] if case["multi"] else []
    args += ["-p"] if case["power"] else []
    for key in ("start", "end"):
        args += [f"--{key}", str(case[key])] if case[key] is not None else []
    with silence():
        res = CliRunner().invoke(cli, args)
    kinds = [s["kind"] for s in chosen]
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        ctx.fail(f"command {args} crashed with {res.exception!r}, files {kinds}")
    ctx.eq(res.exit_code, 0, "exit-code")
    after = snapshot(ctx.tmp)
    for name, content in before.items():
        ctx.eq(after.get(name), content, f"file {name} after plot")
    new = {name for name in after if name.endswith(".png")}
    ctx.label("multi" if multi else "each", "some" if want else "none")
    ctx.nontrivial(bool(want))
    if multi:
        # name derives from any of the datasets
        ctx.eq(len(new) >= 1, bool(want), f"plots {new} for {want}")
        ctx.check(new <= want, f"plots {new} for {want}")
    else:
        ctx.eq(new, want, f"plots of {kinds} with {args}")
    for name in new:
        if not case["exists"]:
            ctx.check(after[name][:8] == b"\x89PNG\r\n\x1a\n", f"{name} is no png")


# --------------------------------------------------------------------------- P28


def coeff_gen(rng, *, dark: bool) -> dict:
    return {
        "shape": rng.choice(["const", "linear", "sine", "steps", "steps"] if dark else ["const", "linear", "sine"]),
        "a": round(10 ** rng.uniform(-4, -1.1), 6),
        "b": float(f"{10 ** rng.uniform(-8, -6):.4g}"),
        "c": round(rng.uniform(1.0, 8.0), 3),
        "seed": rng.randrange(2**16),
        "dark": dark and rng.random() < 0.6,
    }


def make_coeffs(spec: dict, n: int, sps: int, t0: float):
    import pandas as pd  # noqa: PLC0415

    pos = np.arange(n)
    rel = pos / max(1, n - 1)
    rng = np.random.Generator(np.random.PCG64(spec["seed"]))
    if spec["shape"] == "const":
        mod = np.ones(n)
    elif spec["shape"] == "linear":
        mod = 0.2 + 0.8 * (rel if spec["seed"] % 2 else 1 - rel)
    elif spec["shape"] == "sine":
        mod = 0.6 + 0.4 * np.sin(pos * 0.1 + spec["seed"])
    else:
        mod = rng.choice([0.1, 0.5, 1.0], n)
    if spec["dark"]:
        mod = np.where(rng.random(n) < 0.3, 0.0, mod)
    return pd.DataFrame({"a": spec["a"] * mod, "b": spec["b"], "c": spec["c"], "time": t0 + pos / sps})


def model_current(volt, a, b, c):
    return np.maximum(0.0, a - b * np.expm1(c * volt))


def ivonne_gen(rng) -> dict:
    sps = rng.choice([50, 50, 50, 100, 25, 200, 1000])
    n = rng.choice([rng.randint(2, 12), rng.randint(10, 60), rng.randint(40, 100)])
    return {
        "func": rng.choice(["isc_voc", "samples_opt", "samples_voc", "samples_default", "curves", "curves"]),
        "n": n,
        "sps": sps,
        "coeffs": coeff_gen(rng, dark=True),
        "t0": rng.choice([0.0, 0.0, 12.34, 4000.0]),
        "block_rows": rng.choice([None, 1, 2, 5, 7, 10, rng.randint(1, 40)]),
        "v_max": rng.choice([5.0, 5.0, 3.3, 2.5, 1.0]),
        "pts": rng.choice([1000, 500, 100, 300, 250]),
        "duration": rng.choice([None, None, round(rng.randint(1, n) / sps, 5), round(n / sps / 2, 5), 1000.0]),
        "ratio": rng.choice([0.8, 0.5, 0.76, 1.0]),
        "exists": rng.random() < 0.08,
        # an other conversion with the same reader beforehand
        "prior": rng.choice([None, None, "isc_voc", "curves", "samples"]),
        "prior_v": rng.choice([5.0, 2.5, 1.0, 0.5]),
    }


@facet("P28", "ivonne", seeded(ivonne_gen), quick=70, thorough=2000, shards=3,
       rule="the converted recording consists of several source-rows and (limited) blocks")
def run_ivonne(case, ctx) -> None:
    import pickle  # noqa: PLC0415
    import warnings  # noqa: PLC0415

    from shepherd_data import ivonne  # noqa: PLC0415
    from shepherd_data import mppt  # noqa: PLC0415

    n, sps, v_max = case["n"], case["sps"], case["v_max"]
    df = make_coeffs(case["coeffs"], n, sps, case["t0"])
    src = ctx.tmp / "in.iv"
    with src.open("wb") as fh:
        pickle.dump(df, fh)
    raw = src.read_bytes()
    dst = ctx.tmp / "out.h5"
    if case["exists"]:
        dst.write_bytes(b"keep")
    writer = getattr(ivonne, "Writer", None)
    rows = case["block_rows"]
    if rows is not None and writer is not None:

        class SmallWriter(writer):
            """Shrinks blocks of the conversion."""

            def __init__(self, *args, **kwargs) -> None:
                super().__init__(*args, **kwargs)
                self.max_elements = rows * (100_000 // sps)

        ivonne.Writer = SmallWriter
    try:
        with silence(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with ivonne.Reader(src, sps, verbose=False) as ifr:
                ctx.close(ifr.runtime_s, n / sps, "runtime", abs_=6e-4)
                func = case["func"]
                if case["prior"] is not None:
                    prior = ctx.tmp / "prior.h5"
                    {
                        "isc_voc": ifr.upsample_2_isc_voc,
                        "curves": ifr.convert_2_ivcurves,
                        "samples": ifr.convert_2_ivsamples,
                    }[case["prior"]](prior, v_max=case["prior_v"], duration_s=3 / sps)
                    ctx.check(prior.exists(), "first conversion")
                    ctx.label("repeated")
                if func == "isc_voc":
                    ifr.upsample_2_isc_voc(dst, v_max=v_max, duration_s=case["duration"])
                elif func == "curves":
                    ifr.convert_2_ivcurves(dst, v_max=v_max, pts_per_curve=case["pts"], duration_s=case["duration"])
                else:
                    tracker = {
                        "samples_opt": lambda: mppt.OptimalTracker(v_max=v_max),
                        "samples_voc": lambda: mppt.OpenCircuitTracker(v_max=v_max, ratio=case["ratio"]),
                        "samples_default": lambda: None,
                    }[func]()
                    ifr.convert_2_ivsamples(dst, v_max=v_max, tracker=tracker, duration_s=case["duration"])
    finally:
        if writer is not None:
            ivonne.Writer = writer
    ctx.eq(src.read_bytes(), raw, "source after conversion")
    if case["exists"]:
        ctx.eq(dst.read_bytes(), b"keep", "existing file")
        return
    used = n
    if case["duration"] is not None and round(n / sps, 3) > case["duration"]:
        used = min(n, round(case["duration"] * sps))
    intervals = used if used < n else n - 1
    per = 100_000 // sps
    total = intervals * per
    if case["func"] == "curves":
        total = -(-total // case["pts"]) * case["pts"]
    with h5py.File(dst, "r") as res:
        time, volt, curr = (res["data"][key][:] for key in ("time", "voltage", "current"))
        gains = {key: (res["data"][key].attrs["gain"], res["data"][key].attrs["offset"]) for key in ("voltage", "current")}
        ctx.eq(
            res["data"].attrs["datatype"],
            {"isc_voc": "isc_voc", "curves": "ivcurve"}.get(case["func"], "ivsample"), "datatype",
        )
        ctx.eq(int(res["data"].attrs["window_samples"]), case["pts"] if case["func"] == "curves" else 0, "window")
        ctx.eq(res.attrs["mode"], "harvester", "mode")
        ctx.eq(res.attrs["hostname"], "IVonne", "hostname")
    # a trailing incomplete buffer is discarded, the last curve may be partial, durations may be rounded by one row
    spare = (per if case["duration"] is not None else 0) + (case["pts"] if case["func"] == "curves" else 0)
    full = {(total - less) // 10_000 * 10_000 for less in range(0, spare + 1) if total >= less} | {0 if total < 10_000 + spare else total}
    ctx.check(len(time) in full | {total}, f"{len(time)} samples from {used} of {n} rows, expected {full}")
    ctx.check(len(time) == len(volt) == len(curr), "lengths of datasets")
    ctx.label(case["func"], case["coeffs"]["shape"], "dark" if case["coeffs"]["dark"] else "light")
    if len(time) == 0:
        return
    ctx.nontrivial(intervals > 3 and (rows is None or intervals > rows))
    ctx.check(abs(int(time[0]) - case["t0"] * 1e9) <= 2, f"start {time[0]} vs {case['t0']}")
    steps = np.diff(time.astype(np.int64))
    ctx.check(
        steps.min() >= 9_998 and steps.max() <= 10_002,
        lambda: f"time is not evenly spaced: {steps.min()} .. {steps.max()} ns, at {np.argmax(np.abs(steps - 10_000))}",
    )
    volt = volt * gains["voltage"][0] + gains["voltage"][1]
    curr = curr * gains["current"][0] + gains["current"][1]
    lsb_v, lsb_i = 2.1 * gains["voltage"][0], 2.1 * gains["current"][0]
    a_max = float(df["a"].max())
    ctx.check(volt.min() >= -lsb_v and volt.max() <= v_max + lsb_v, f"voltage {volt.min()}..{volt.max()}, limit {v_max}")
    # cubic splines may overshoot next to (artificial) jumps
    ctx.check(curr.min() >= -lsb_i and curr.max() <= 2 * a_max + lsb_i, f"current {curr.min()}..{curr.max()}, isc {a_max}")
    aa, bb, cc = (df[key].to_numpy() for key in "abc")
    if case["func"] == "curves":
        pts = case["pts"]
        ref = np.linspace(0, v_max, pts)
        for num in range(len(time) // pts):
            cur_v, cur_i = volt[num * pts : (num + 1) * pts], curr[num * pts : (num + 1) * pts]
            ctx.check(np.allclose(cur_v, ref, rtol=0, atol=lsb_v), lambda: f"voltage of curve {num}: {cur_v[:5]}")
            at = num * pts / per
            if case["coeffs"]["shape"] in ("const", "linear") and not case["coeffs"]["dark"]:
                a_now = np.interp(at, np.arange(n), aa)
            elif abs(at - round(at)) < 1e-9:
                a_now = aa[round(at)]
            else:
                continue
            want = model_current(ref, a_now, bb[0], cc[0])
            ctx.check(
                np.allclose(cur_i, want, rtol=1e-6, atol=lsb_i + 1e-9 * a_max),
                lambda: f"current of curve {num} at row {at}: {cur_i[:3]} vs {want[:3]}",
            )
        return
    knots = np.arange(0, len(time), per)
    voc = np.minimum(v_max, np.log(aa / bb + 1) / cc)
    for num, pos in enumerate(knots):
        got_v, got_i = volt[pos], curr[pos]
        if case["func"] == "isc_voc":
            ctx.close(got_v, voc[num], f"voc at row {num}", rel=1e-9, abs_=lsb_v)
            ctx.close(got_i, aa[num], f"isc at row {num}", rel=1e-9, abs_=lsb_i)
        else:
            grid = v_max if case["func"] != "samples_default" else v_max
            judge_tracker(
                ctx, "voc" if case["func"] == "samples_voc" else "opt", got_v, got_i, aa[num], bb[num], cc[num],
                voc[num], case["ratio"], grid, 1000, lsb_v, lsb_i, f"row {num}",
            )
    if case["func"] == "isc_voc" and case["coeffs"]["shape"] in ("const", "linear") and not case["coeffs"]["dark"]:
        want = np.interp(np.arange(len(time)) / per, np.arange(n), aa)
        ctx.check(np.allclose(curr, want, rtol=1e-7, atol=lsb_i), "linear course of isc between rows")


def judge_tracker(ctx, kind, got_v, got_i, a, b, c, voc, ratio, v_max, pts, lsb_v, lsb_i, what) -> None:  # noqa: PLR0913
    step = v_max / (pts - 1)
    slope = b * c * np.exp(min(c * (got_v + lsb_v), 700))
    ctx.close(
        got_i, float(model_current(got_v, a, b, c)), f"current at {got_v} V of {what}", rel=1e-6,
        abs_=lsb_i + slope * lsb_v,
    )
    if kind == "voc":
        goal = min(ratio * voc, v_max)
        ctx.check(
            got_v <= goal + 1e-9 + lsb_v and (got_v >= goal - 1.001 * step - lsb_v),
            f"{what}: tracked {got_v} V for open-circuit {voc} V with ratio {ratio} (step {step})",
        )
    else:
        fine = np.linspace(0, v_max, 20_001)
        powers = fine * model_current(fine, a, b, c)
        best = int(np.argmax(powers))
        if powers[best] <= 0:
            ctx.check(got_v * got_i <= 1e-12, f"{what}: power in darkness")
            return
        bound = powers[best] * max(0.0, 1 - 1.01 * step / fine[best])
        ctx.check(
            got_v * got_i >= bound - lsb_i * v_max - lsb_v * a,
            f"{what}: tracked {got_v * got_i} W, possible {powers[best]} W (bound {bound})",
        )


def tracker_gen(rng) -> dict:
    return {
        "coeffs": coeff_gen(rng, dark=True),
        "n": rng.randint(1, 12),
        "kind": rng.choice(["opt", "voc", "voc", "voc_missing", "voc_missing"]),
        "ratio": rng.choice([0.8, 0.5, 1.0, 0.05, rng.uniform(0.1, 1)]),
        "v_max": rng.choice([5.0, 3.3, 1.0, 0.5, rng.uniform(0.5, 10)]),
        "pts": rng.choice([1000, 100, 17, 500]),
        "index0": rng.choice([0, 7]),
    }


@facet("P28", "trackers", seeded(tracker_gen), quick=250, thorough=8000,
       rule="curves with light were tracked")
def run_tracker(case, ctx) -> None:
    from shepherd_data import ivonne  # noqa: PLC0415
    from shepherd_data import mppt  # noqa: PLC0415

    df = make_coeffs(case["coeffs"], case["n"], 50, 0.0)
    df.index = df.index + case["index0"]
    want_cols = df.copy()
    v_max, pts = case["v_max"], case["pts"]
    step = v_max / (pts - 1)
    voc = np.log(df["a"] / df["b"] + 1) / df["c"]
    ctx.check(np.allclose(ivonne.get_voc(df), voc, rtol=1e-9), "open-circuit voltage")
    ctx.check(np.array_equal(ivonne.get_isc(df), df["a"]), "short-circuit current")
    grid = np.linspace(0, v_max, pts)
    for _, row in df.iterrows():
        want = model_current(grid, row["a"], row["b"], row["c"])
        before = grid.copy()
        arr = mppt.iv_model(grid, row)
        ctx.check(np.allclose(arr, want, rtol=1e-7, atol=1e-12), "current of curve")
        ctx.check(np.array_equal(grid, before), "voltages were altered")
        ctx.close(mppt.iv_model(float(grid[pts // 2]), row), want[pts // 2], "single current", rel=1e-7, abs_=1e-12)
        found = float(mppt.find_oc(grid, arr))
        if want[0] <= 0:
            ctx.check(found <= step, f"open-circuit voltage {found} in darkness")
        else:
            exact = np.log(0.95 * row["a"] / row["b"] + 1) / row["c"]
            ctx.close(found, min(exact, v_max), f"open-circuit voltage of {dict(row)}", abs_=1.01 * step)
    if case["kind"] == "opt":
        tracker = mppt.OptimalTracker(v_max=v_max, pts_per_curve=pts)
    else:
        tracker = mppt.OpenCircuitTracker(v_max=v_max, pts_per_curve=pts, ratio=case["ratio"])
        if case["kind"] == "voc":
            df["voc"] = voc
    out = tracker.process(df)
    ctx.eq(len(out), case["n"], "rows")
    for key in ("a", "b", "c", "time"):
        ctx.check(np.array_equal(out[key], want_cols[key]), f"input-column {key} was altered")
    ctx.label(case["kind"])
    ctx.nontrivial(bool((want_cols["a"] > 0).any()))
    for num in range(case["n"]):
        a, b, c = (float(want_cols[key].iloc[num]) for key in "abc")
        got_v, got_i = float(out["v"].iloc[num]), float(out["i"].iloc[num])
        ctx.check(-1e-12 <= got_v <= v_max + 1e-9, f"voltage {got_v}")
        if case["kind"] == "voc_missing":
            exact = 0.0 if a <= 0 else min(np.log(0.95 * a / b + 1) / c, v_max)
            ctx.close(got_v, case["ratio"] * exact, f"tracked voltage for {exact} V x {case['ratio']}", abs_=2.1 * step)
            ctx.close(got_i, float(model_current(got_v, a, b, c)), "tracked current", rel=1e-6, abs_=1e-12)
        else:
            judge_tracker(
                ctx, case["kind"], got_v, got_i, a, b, c, float(voc.iloc[num]), case["ratio"], v_max, pts, 1e-9, 1e-12,
                f"row {num}",
            )
