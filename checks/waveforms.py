"""P07-P08: digital traces - gpio waveforms and uart decoding."""

from __future__ import annotations

import re
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from harness.core import facet
from harness.util import T0
from harness.util import make_h5
from harness.util import ns_times
from shepherd_core import Reader
from shepherd_core.decoder_waveform import Uart

PIN_NAMES = ["tgt_io0", "tgt_io1", "tgt_io10", "uart", "swd_clk", "gpio1", "gpio10", "vbat_ok", "a", "io"]


def gpio_st() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "pins": st.dictionaries(st.sampled_from(PIN_NAMES), st.integers(0, 15), min_size=1, max_size=5).filter(
                lambda d: len(set(d.values())) == len(d)
            ),
            "states": st.one_of(
                st.lists(st.integers(0, 2**16 - 1), max_size=40),
                st.lists(st.sampled_from([0, 1, 2, 3, 0x8000, 0xFFFF]), max_size=60),
            ),
            "steps": st.lists(st.integers(1, 10**10), min_size=1, max_size=8),
            "t0": st.sampled_from([0, T0, 2**62]),
            "pick": st.integers(0, 9),
        }
    )


def gpio_model(case: dict) -> tuple[np.ndarray, list[int]]:
    n = len(case["states"])
    steps = case["steps"]
    times = case["t0"] + np.cumsum([0] + [steps[i % len(steps)] for i in range(n)])[:n]
    return times.astype("u8"), case["states"]


def expected_changes(times: np.ndarray, states: list[int], pin: int) -> list[tuple[int, int]]:
    out: list[tuple[int, int]] = []
    for tme, val in zip(times.tolist(), states):
        bit = (val >> pin) & 1
        if not out or out[-1][1] != bit:
            out.append((tme, bit))
    return out


@facet(
    "P07",
    "waveform_per_pin",
    gpio_st,
    quick=500,
    thorough=12000,
    shards=2,
    rule="recorded gpio registers (0-60 events, 1-5 named pins on bits 0-15, colliding names); each "
    "waveform equals the list of state changes of that bit, single lookups by name and unknown "
    "names included; non-trivial: a pin with >=2 changes and redundant events",
)
def p07_waveforms(case, ctx):
    path = ctx.tmp / "gpio.h5"
    times, states = gpio_model(case)
    pins = {num: name for name, num in case["pins"].items()}
    make_h5(
        path,
        ns_times(3),
        np.zeros(3),
        np.zeros(3),
        gpio={"times": times, "values": states, "pins": pins},
    )
    interesting = False
    with Reader(path, verbose=None) as rdr:
        wfs = rdr.gpio_to_waveforms()
        ctx.eq(set(wfs), set(case["pins"]), "names of waveforms")
        for name, num in case["pins"].items():
            want = expected_changes(times, states, num)
            got = [(int(t), int(v)) for t, v in wfs[name]]
            ctx.check(got == want, f"waveform of {name} (bit {num}): {got[:6]}, expected {want[:6]}")
            interesting |= 2 <= len(want) < len(states)
            ctx.eq(rdr.get_gpio_pin_num(name), num, f"pin-number of {name}")
        name = sorted(case["pins"])[case["pick"] % len(case["pins"])]
        single = rdr.gpio_to_waveforms(name)
        ctx.eq(set(single), {name}, "waveforms by name")
        ctx.check(np.array_equal(single[name], wfs[name]), f"waveform of {name} depends on way of access")
        # part of a name is sufficient if it is unambiguous
        for start in range(len(name)):
            part = name[start : start + 1 + case["pick"] % 3]
            if part not in case["pins"] and sum(part in pin for pin in case["pins"]) == 1:
                ctx.eq(rdr.get_gpio_pin_num(part), case["pins"][name], f"pin-number of {part}, part of {name}")
        ctx.eq(rdr.get_gpio_pin_num("xyz"), None, "pin-number of unknown name")
        ctx.eq(len(rdr.gpio_to_waveforms("xyz")), 0, "waveforms of unknown name")
    ctx.nontrivial(interesting)


@facet(
    "P07",
    "redundancy_filter",
    lambda: st.one_of(
        st.lists(st.integers(0, 1), max_size=60).map(lambda v: {"kind": "bool", "data": v}),
        st.lists(st.integers(0, 3), max_size=60).map(lambda v: {"kind": "int", "data": v}),
    ),
    quick=500,
    thorough=10000,
    rule="boolean and integer state vectors; the kept entries are exactly those that differ from "
    "their predecessor, plus the first; non-trivial: something is kept and something dropped",
)
def p07_filter(case, ctx):
    data = np.array(case["data"], dtype=bool if case["kind"] == "bool" else "u2")
    keep = Reader.get_filter_for_redundant_states(data)
    want = [i == 0 or v != case["data"][i - 1] for i, v in enumerate(case["data"])]
    if case["kind"] == "int" and len(want) and case["data"][0] == 1:
        # first entry is compared against "not data[0]" == 0
        want[0] = True
    ctx.eq([bool(k) for k in keep], want, "filter")
    ctx.raises(lambda: Reader.get_filter_for_redundant_states(np.zeros((2, 2))), "2D input", (ValueError,))
    ctx.nontrivial(any(want) and not all(want))


@facet(
    "P07",
    "waveform_csv",
    lambda: st.fixed_dictionaries(
        {
            "gpio": gpio_st(),
            "sep": st.sampled_from([None, ",", ";", "\t"]),
            "existing": st.booleans(),
        }
    ),
    quick=150,
    thorough=3000,
    rule="waveforms exported as csv hold one row per change (time in seconds, state), existing files "
    "stay; non-trivial: >=2 rows written",
)
def p07_csv(case, ctx):
    path = ctx.tmp / "gpio.h5"
    times, states = gpio_model(case["gpio"])
    pins = {num: name for name, num in case["gpio"]["pins"].items()}
    make_h5(path, ns_times(3), np.zeros(3), np.zeros(3), gpio={"times": times, "values": states, "pins": pins})
    name = sorted(case["gpio"]["pins"])[0]
    dest = ctx.tmp / f"gpio.waveform.{name}.csv"
    if case["existing"]:
        dest.write_text("keep")
    with Reader(path, verbose=None) as rdr:
        wf = rdr.gpio_to_waveforms(name)[name]
        if case["sep"] is None:
            rdr.waveform_to_csv(name, wf)
        else:
            rdr.waveform_to_csv(name, wf, separator=case["sep"])
    if case["existing"]:
        ctx.eq(dest.read_text(), "keep", "existing csv")
        return
    ctx.check(dest.exists(), "csv was not written")
    lines = dest.read_text().splitlines()
    want = expected_changes(times, states, case["gpio"]["pins"][name])
    ctx.check(name in lines[0] and "s" in lines[0], f"header {lines[0]!r}")
    ctx.eq(len(lines[0].split(case["sep"] or ",")), 2, f"columns of header {lines[0]!r}")
    ctx.eq(len(lines) - 1, len(want), "rows")
    for row, (tme, val) in zip(lines[1:], want):
        cols = row.split(case["sep"] or ",")
        ctx.eq(len(cols), 2, "columns")
        ctx.check(
            abs(Decimal(cols[0]) * 10**9 - tme) <= 1,
            f"time in row {row!r}, change happened at {tme} ns",
        )
        ctx.eq(int(cols[1]), val, "state")
    ctx.nontrivial(len(want) >= 2)


# ---------------------------------------------------------------- P08 uart
GAPS_ANY = [1, 1, 1, 1.5, 2, 3, 3.7, 7, 8, 9.2, 12, 100, 5000]
GAPS_AUTO = [1, 1, 2, 3, 12, 100, 1000]


def uart_st(*, auto: bool, frame: st.SearchStrategy) -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "codes": st.lists(
                st.one_of(
                    st.integers(32, 126),
                    st.sampled_from([10, 13, 10, 13, 9, 85]),
                    st.integers(1, 255),
                ),
                min_size=4,
                max_size=40,
            ),
            "gaps": st.lists(st.sampled_from(GAPS_AUTO if auto else GAPS_ANY), min_size=1, max_size=9),
            "baud": st.sampled_from([300, 9600, 57600, 115200, 250_000, 460_800, 921_600, 1_000_000]),
            "frame": frame,
            "inverted": st.booleans(),
            "tell_inv": st.booleans(),
            "t0": st.sampled_from([0.0, 0.5, 100.0]),
            "redundant": st.sampled_from([False, True, 0.31, 2.7]),
            "levels": st.sampled_from([[0, 1], [0, 1], [0.1, 2.9], [-1.0, 5.0]]),
            "tail": st.sampled_from([10, 10, 33, 13]),
            # edges that are slightly off, long recordings, long idle phase in front (sampled)
            "jitter": st.sampled_from([0, 0, 0.01, 0.03]) if not auto else st.just(0),
            "repeat": st.sampled_from([1] * 12 + [30, 150]),
            "lead": st.sampled_from([0, 0, 0, 0, 0, 0, 3, 1500]),
        }
    )


def uart_signal(case: dict) -> tuple[np.ndarray, list[tuple[float, str]]]:
    """Ideal transmitter: returns transitions and (start-time, symbol)."""
    bits_n = case["frame"]
    tick = 1.0 / case["baud"]
    codes = [c % (2**bits_n) or 1 for c in case["codes"]] * case.get("repeat", 1) + [case["tail"]]
    lead = case.get("lead", 0)
    rng = np.random.default_rng(len(codes))
    pos = 0.0
    events = [(0.0, 1)]
    symbols = []
    pos = 200.0
    jit = case.get("jitter", 0)
    for i, code in enumerate(codes):
        frame = [0] + [(code >> b) & 1 for b in range(bits_n)] + [1]
        shift = rng.uniform(-1, 1, len(frame)) * jit
        symbols.append((case["t0"] + (pos + shift[0]) * tick, chr(code)))
        for k, bit in enumerate(frame):
            events.append((pos + k + shift[k], bit))
        frame.pop()
        pos += len(frame) + case["gaps"][i % len(case["gaps"])]
    # only transitions (or everything, if redundant)
    out = []
    for tme, bit in events:
        last = out[-1] if out else None
        if last is not None and case["redundant"] not in (False, True):
            # further samples of the same state that are not aligned to bits
            pos_r = (last[0] - case["t0"]) / tick + case["redundant"]
            for num in range(40):
                if pos_r + num * case["redundant"] < tme - 0.05:
                    out.append((case["t0"] + (pos_r + num * case["redundant"]) * tick, last[1]))
        if case["redundant"] or not out or out[-1][1] != bit:
            out.append((case["t0"] + tme * tick, bit))
    if lead:
        out[1:1] = [(case["t0"] + (k + 1) * 190 / lead * tick, 1) for k in range(lead) if 190 / lead * tick > 2e-9]
        out.sort(key=lambda e: e[0])
    low, high = case["levels"]
    if case["inverted"]:
        low, high = high, low
    arr = np.array([(t, high if b else low) for t, b in out], dtype=float)
    arr[:, 0] = np.round(arr[:, 0], 9)
    return arr, symbols


def split_lines(symbols: list[tuple[float, str]]) -> list[tuple[float, str]]:
    text = "".join(s for _, s in symbols)
    lines = []
    pos = 0
    for match in re.finditer(r"[^\r\n]*(\r\n|\r|\n)|[^\r\n]+$", text):
        lines.append((symbols[pos][0], match.group(0)))
        pos += len(match.group(0))
    return lines


def compare_stamped(ctx, got, want, what):
    ctx.check(
        [str(s) for _, s in got] == [s for _, s in want],
        lambda: f"{what}: got {[str(s) for _, s in got]!r}, expected {[s for _, s in want]!r}",
    )
    for (g_t, _), (w_t, _) in zip(got, want):
        ctx.close(float(g_t), w_t, f"time of {what}", rel=1e-12, abs_=2e-9)


def decode_and_compare(case, ctx, arr, symbols, **kwargs):
    before = arr.copy()
    uart = Uart(arr, **kwargs)
    ctx.check(np.array_equal(before, arr), "input array was altered")
    compare_stamped(ctx, uart.get_symbols(), symbols, "symbol")
    lines = split_lines(symbols)
    compare_stamped(ctx, uart.get_lines(), lines, "line")
    ctx.eq(uart.get_text(), "".join(s for _, s in symbols), "text")
    # results are stable, also after redo
    compare_stamped(ctx, uart.get_symbols(force_redo=True), symbols, "symbol (redo)")
    compare_stamped(ctx, uart.get_lines(force_redo=True), lines, "line (redo)")
    fresh = Uart(before, **kwargs)
    ctx.eq(fresh.get_text(), uart.get_text(), "text without intermediate steps")
    return uart


@facet(
    "P08",
    "decode_given_baud",
    lambda: uart_st(auto=False, frame=st.sampled_from([8, 8, 8, 7, 6, 9])),
    quick=400,
    thorough=10000,
    shards=2,
    rule="ideal transmitter with generated symbols (incl. >=0x80), inter-frame gaps (1 to 5000 "
    "ticks, fractional), baud 300-1M, frame 6-9 bit, inversion, analog levels, redundant samples, edges up to 3 % of a bit "
    "off, long texts, long sampled idle phase; "
    "decoded symbols, start times, lines, text equal the input; non-trivial: line-break inside "
    "and a gap other than 1 tick",
)
def p08_given(case, ctx):
    if case["frame"] < 7:
        case = {**case, "codes": [c % 31 + 32 for c in case["codes"]]}
        case["tail"] = 33 - 32 or 1
        case["frame"] = 6
        case["codes"] = [c - 32 or 1 for c in case["codes"]]
    arr, symbols = uart_signal(case)
    kwargs = {"baud_rate": case["baud"], "frame_length": case["frame"]}
    long_pause = True  # leading idle is always there
    if case["tell_inv"] or not long_pause:
        kwargs["inversion"] = case["inverted"]
    if case["levels"][0] != 0 and case["redundant"]:
        # level gets derived from mean of samples, which is fine for two clean levels
        ctx.label("analog")
    decode_and_compare(case, ctx, arr, symbols, **kwargs)
    inner = "".join(s for _, s in symbols[:-1])
    ctx.label(f"frame={case['frame']}", "inverted" if case["inverted"] else "normal")
    ctx.nontrivial(("\n" in inner or "\r" in inner) and any(g != 1 for g in case["gaps"]))


@facet(
    "P08",
    "decode_auto_detect",
    lambda: uart_st(auto=True, frame=st.just(8)),
    quick=300,
    thorough=8000,
    shards=2,
    rule="same transmitter, baudrate and inversion are left to detection (signals with >=30 % "
    "single-tick states); non-trivial: inverted or baud other than 9600",
)
def p08_auto(case, ctx):
    arr, symbols = uart_signal(case)
    trans = [r for i, r in enumerate(arr) if i == 0 or arr[i - 1][1] != r[1]]
    steps = np.diff([r[0] for r in trans]) * case["baud"]
    if np.mean(np.abs(steps - 1) < 0.02) < 0.3 or case["redundant"]:
        # constructive: add a preamble of alternating bits
        fill = [85] * len(case["codes"])
        codes = fill + case["codes"] if case["tell_inv"] else case["codes"] + fill
        case = {**case, "codes": codes, "redundant": False, "lead": 0}
        arr, symbols = uart_signal(case)
        steps = np.diff(arr[:, 0]) * case["baud"]
    if np.mean(np.abs(steps - 1) < 0.02) < 0.3:
        return
    uart = decode_and_compare(case, ctx, arr, symbols)
    ctx.check(
        abs(uart.baud_rate - case["baud"]) <= 0.01 * case["baud"],
        f"detected {uart.baud_rate} baud, sent with {case['baud']}",
    )
    ctx.eq(bool(uart.inversion), case["inverted"], "detected inversion")
    ctx.nontrivial(case["inverted"] or case["baud"] != 9600)


@facet(
    "P08",
    "decode_csv_file",
    lambda: uart_st(auto=False, frame=st.just(8)),
    quick=60,
    thorough=1000,
    rule="same transmitter, signal handed over as csv-file; non-trivial: every case",
)
def p08_csv(case, ctx):
    arr, symbols = uart_signal(case)
    path = ctx.tmp / "sig.csv"
    path.write_text("time,value\n" + "".join(f"{t!r},{v!r}\n" for t, v in arr.tolist()))
    uart = Uart(path, baud_rate=case["baud"], inversion=case["inverted"])
    compare_stamped(ctx, uart.get_lines(), split_lines(symbols), "line")
    compare_stamped(ctx, uart.get_symbols(), symbols, "symbol")
    ctx.nontrivial()


@facet(
    "P08",
    "decode_from_recording",
    lambda: st.tuples(
        uart_st(auto=True, frame=st.just(8)),
        st.integers(0, 15),
        st.integers(0, 2**16 - 1),
    ).map(list),
    quick=150,
    thorough=3000,
    shards=2,
    rule="transmitter output (300-1M baud) stored on one pin of a gpio recording with unrelated "
    "activity on other pins; lines extracted from the file equal the sent text; non-trivial: "
    "other pins are active",
)
def p08_recording(case, ctx):
    sig, pin, noise = case
    sig = {**sig, "redundant": False, "levels": [0, 1], "inverted": False, "t0": 0.0}
    sig["codes"] = [85] * (len(sig["codes"])) + sig["codes"]
    arr, symbols = uart_signal(sig)
    steps = np.diff(arr[:, 0]) * sig["baud"]
    if np.mean(np.abs(steps - 1) < 0.02) < 0.35:
        return
    rows = []
    other = noise & ~(1 << pin)
    for i, (tme, val) in enumerate(arr.tolist()):
        t_ns = T0 + round(tme * 1e9)
        rows.append((t_ns, (int(val) << pin) | (other if i % 2 else 0)))
        if i % 3 == 0 and other:
            rows.append((t_ns + 100, (int(val) << pin) | (other if i % 4 else 0)))
    path = ctx.tmp / "u.h5"
    pins = {pin: ("uart", "uart_tx", "tgt-uart")[len(rows) % 3], (pin + 1) % 16: "other"}
    make_h5(
        path,
        ns_times(3),
        np.zeros(3),
        np.zeros(3),
        gpio={"times": [r[0] for r in rows], "values": [r[1] for r in rows], "pins": pins},
    )
    with Reader(path, verbose=None) as rdr:
        lines = rdr.gpio_to_uart()
    ctx.check(lines is not None, "no text was extracted")
    want = split_lines(symbols)
    ctx.eq([str(s) for _, s in lines], [s for _, s in want], "lines")
    for (g_t, _), (w_t, _) in zip(lines, want):
        ctx.close(float(g_t), T0 * 1e-9 + w_t, "time of line", rel=0, abs_=2e-6)
    ctx.nontrivial(other != 0)


@facet(
    "P08",
    "unusable_input",
    lambda: st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["short", "backwards", "columns", "parity", "order", "frame"]),
            "n": st.integers(0, 7),
            "frame": st.sampled_from([-1, 0, 65, 100]),
            "pos": st.integers(1, 30),
        }
    ),
    quick=120,
    thorough=1000,
    rule="too short signals, timestamps running backwards, wrong number of columns, unsupported "
    "parity / bit-order / frame-length are refused; files without a uart pin yield nothing; "
    "non-trivial: every case",
)
def p08_unusable(case, ctx):
    arr, _ = uart_signal(
        {"codes": [85, 86, 87, 65], "gaps": [1], "baud": 9600, "frame": 8, "t0": 0.0, "redundant": False,
         "levels": [0, 1], "inverted": False, "tail": 10}
    )
    kwargs = {"baud_rate": 9600}
    if case["kind"] == "short":
        arr = arr[: case["n"]]
    elif case["kind"] == "backwards":
        arr[case["pos"] % (len(arr) - 1) + 1, 0] = -1.0
    elif case["kind"] == "columns":
        arr = np.column_stack((arr, arr[:, 0]))
    elif case["kind"] == "frame":
        kwargs["frame_length"] = case["frame"]
    elif case["kind"] == "parity":
        from shepherd_core.decoder_waveform.uart import Parity  # noqa: PLC0415

        kwargs["parity"] = Parity.odd if case["n"] % 2 else Parity.even
    else:
        from shepherd_core.decoder_waveform.uart import BitOrder  # noqa: PLC0415

        kwargs["bit_order"] = BitOrder.msb
    ctx.raises(lambda: Uart(arr, **kwargs), f"uart with {case['kind']}", (TypeError, ValueError))
    # recording without uart
    if case["kind"] == "short":
        path = ctx.tmp / "u.h5"
        n = case["n"]
        make_h5(
            path, ns_times(3), np.zeros(3), np.zeros(3),
            gpio={"times": list(range(n)), "values": [i % 2 for i in range(n)],
                  "pins": {0: "uart" if case["pos"] % 2 else "led"}},
        )
        with Reader(path, verbose=None) as rdr:
            ctx.check(rdr.gpio_to_uart() is None, "text found in unusable trace")
    ctx.nontrivial()
