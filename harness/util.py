"""Helpers shared by the checks: deterministic data, independent h5-builder, yaml/plain access."""

from __future__ import annotations

import contextlib
import io
import random
from pathlib import Path
from typing import Any

import h5py
import numpy as np
from hypothesis import strategies as st

T0 = 1_700_000_000_000_000_000  # a realistic system time [ns]


def series(spec: dict, n: int, hi: int = 2**32 - 1, dtype: str = "u4") -> np.ndarray:
    """Expand a compact description to a deterministic array (a pure function of the case)."""
    kind, seed = spec["kind"], spec["seed"]
    if kind == "const":
        arr = np.full(n, seed % (hi + 1), dtype=np.uint64)
    elif kind == "ramp":
        arr = (np.arange(n, dtype=np.uint64) * np.uint64(1 + seed % 997) + np.uint64(seed)) % np.uint64(
            hi + 1
        )
    elif kind == "edge":
        vals = np.array([0, 1, hi, hi - 1, hi // 2, seed % (hi + 1)], dtype=np.uint64)
        arr = vals[(np.arange(n) * (1 + seed % 5) + seed) % len(vals)]
    else:
        arr = np.random.Generator(np.random.PCG64(seed)).integers(
            0, hi, size=n, dtype=np.uint64, endpoint=True
        )
    return arr.astype(dtype)


def spec_st() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["rand", "ramp", "const", "edge"]),
            "seed": st.integers(0, 2**16),
        }
    )


def si_series(spec: dict, n: int, lo: float, hi: float) -> np.ndarray:
    """Deterministic float-array in [lo, hi]."""
    raw = series(spec, n, hi=2**20 - 1, dtype="u8").astype(float) / (2**20 - 1)
    return lo + raw * (hi - lo)


def floats(lo: float, hi: float, **kw: Any) -> st.SearchStrategy:
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, **kw)


def seeded(gen: Any) -> st.SearchStrategy:
    """Case from a plain random generator - for long histories with a realistic distribution."""
    return st.integers(0, 2**60).map(lambda seed: gen(random.Random(seed)))


def log_floats(lo_exp: float, hi_exp: float) -> st.SearchStrategy:
    """Positive floats, evenly spread over orders of magnitude."""
    return st.floats(lo_exp, hi_exp, allow_nan=False).map(lambda e: float(f"{10**e:.6g}"))


def make_h5(
    path: Path,
    time: np.ndarray,
    voltage: np.ndarray,
    current: np.ndarray,
    *,
    mode: str | None = "harvester",
    datatype: str | None = "ivsample",
    window: int | None = 0,
    cal: dict | None = None,
    compression: Any = "lzf",
    hostname: str | None = None,
    gpio: dict | None = None,
    logs: dict | None = None,
    chunk: int = 10_000,
) -> Path:
    """Build a recording with h5py only - independent of the Writer under test."""
    gains = {"time": (1e-9, 0.0), "voltage": (3e-9, 0.0), "current": (250e-12, 0.0)}
    gains.update(cal or {})
    with h5py.File(path, "w") as h5f:
        if mode is not None:
            h5f.attrs["mode"] = mode
        if hostname is not None:
            h5f.attrs["hostname"] = hostname
        grp = h5f.create_group("data")
        if datatype is not None:
            grp.attrs["datatype"] = datatype
        if window is not None:
            grp.attrs["window_samples"] = window
        for name, arr, dt in (
            ("time", time, "u8"),
            ("voltage", voltage, "u4"),
            ("current", current, "u4"),
        ):
            dset = grp.create_dataset(
                name,
                data=np.asarray(arr).astype(dt),
                dtype=dt,
                maxshape=(None,),
                chunks=(chunk,),
                compression=compression,
            )
            dset.attrs["gain"], dset.attrs["offset"] = gains[name]
            dset.attrs["unit"] = {"time": "s", "voltage": "V", "current": "A"}[name]
        if gpio is not None:
            add_gpio(h5f, **gpio)
        for name, log in (logs or {}).items():
            add_log(h5f, name, log)
    return path


def add_gpio(h5f: h5py.File, times: Any, values: Any, pins: dict[int, str]) -> None:
    import yaml  # noqa: PLC0415

    grp = h5f.create_group("gpio")
    dst = grp.create_dataset("time", data=np.asarray(times, dtype="u8"), maxshape=(None,), chunks=True)
    dst.attrs["unit"] = "s"
    dst.attrs["gain"] = 1e-9
    dst.attrs["offset"] = 0.0
    dst = grp.create_dataset("value", data=np.asarray(values, dtype="u2"), maxshape=(None,), chunks=True)
    dst.attrs["unit"] = "n"
    desc = {num: {"name": name, "reg": f"r31_{num}"} for num, name in pins.items()}
    dst.attrs["description"] = yaml.safe_dump(desc, default_flow_style=False, sort_keys=False)


def add_log(h5f: h5py.File, name: str, log: dict) -> None:
    grp = h5f.create_group(name)
    grp.create_dataset(
        "time", data=np.asarray(log["time"], dtype="u8"), maxshape=(None,), chunks=True
    )
    grp["time"].attrs["unit"] = "s"
    grp["time"].attrs["gain"] = 1e-9
    grp["time"].attrs["offset"] = 0
    if "message" in log:
        grp.create_dataset(
            "message",
            data=[str(m) for m in log["message"]],
            dtype=h5py.special_dtype(vlen=str),
            maxshape=(None,),
            chunks=True,
        )
    if "level" in log:
        grp.create_dataset(
            "level", data=np.asarray(log["level"], dtype="u1"), maxshape=(None,), chunks=True
        )


def ns_times(n: int, t0: int = T0, step: int = 10_000) -> np.ndarray:
    return np.uint64(t0) + np.arange(n, dtype=np.uint64) * np.uint64(step)


def h5_dump(path: Path) -> dict:
    """Everything in a file, via plain h5py - to compare before / after."""
    out: dict = {}

    def plain(val: Any) -> Any:
        if isinstance(val, np.ndarray):
            return val.tolist()
        return val.item() if hasattr(val, "item") else val

    with h5py.File(path, "r") as h5f:
        out["/"] = {k: plain(v) for k, v in h5f.attrs.items()}

        def visit(name: str, node: Any) -> None:
            entry: dict = {"attrs": {k: plain(v) for k, v in node.attrs.items()}}
            if isinstance(node, h5py.Dataset):
                entry["dtype"] = str(node.dtype)
                entry["shape"] = list(node.shape)
                entry["data"] = hash(node[...].tobytes()) if node.dtype.kind != "O" else [
                    str(x) for x in node[...].tolist()
                ]
            out[name] = entry

        h5f.visititems(visit)
    return out


@contextlib.contextmanager
def silence() -> Any:
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def b64(data: bytes) -> str:
    import base64  # noqa: PLC0415

    return base64.b64encode(data).decode()


def unb64(txt: str) -> bytes:
    import base64  # noqa: PLC0415

    return base64.b64decode(txt)
