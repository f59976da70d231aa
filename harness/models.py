"""Strategies for JSON-able constructor-arguments of the data models."""

from __future__ import annotations

import string
from functools import lru_cache
from typing import Any

import yaml
from hypothesis import strategies as st

from .core import REPO
from .util import floats
from .util import log_floats

MODELS = REPO / "shepherd_core" / "shepherd_core" / "data_models"


@lru_cache
def fixtures() -> dict[str, list[dict]]:
    """Raw content of all fixture files, read without the code under test."""
    out: dict[str, list[dict]] = {}
    for file in sorted(MODELS.glob("**/*.yaml")):
        for item in yaml.safe_load(file.read_text()):
            if isinstance(item, dict):
                out.setdefault(item["datatype"].lower(), []).append(item["parameters"])
    return out


def resolve(model_type: str, name: str, base: dict | None = None) -> dict:
    """Own resolution of the inheritance of a fixture."""
    pool = base if base is not None else {str(f["name"]).lower(): f for f in fixtures()[model_type]}
    chain = []
    cur = str(name).lower()
    while True:
        item = pool[cur]
        chain.append(item)
        if "inherit_from" not in item:
            break
        cur = str(item["inherit_from"]).lower()
        if len(chain) > 100:
            raise ValueError("circle")
    out: dict = {}
    for item in reversed(chain):
        out.update(item)
    out.pop("inherit_from", None)
    return out


@lru_cache
def testbed_targets() -> list[dict]:
    """Usable targets of the testbed: [{target, observer, port, mcu1, mcu2}]."""
    tb = fixtures()["testbed"][0]
    out = []
    for ref in tb["observers"]:
        obs = resolve("observer", ref["name"])
        cape = resolve("cape", obs["cape"]["name"]) if obs.get("cape") else {}
        if not obs.get("active", True) or not cape.get("active", True):
            continue
        for port, key in (("A", "target_a"), ("B", "target_b")):
            if obs.get(key) is None:
                continue
            tgt = resolve("target", obs[key]["name"])
            if not tgt.get("active", True):
                continue
            mcus = []
            for mcu in ("mcu1", "mcu2"):
                val = tgt.get(mcu)
                if isinstance(val, dict):
                    val = val["name"]
                mcus.append(None if val is None else resolve("mcu", val))
            out.append(
                {
                    "target": tgt["id"],
                    "testbed_id": tgt.get("testbed_id", tgt["id"] % 2**16),
                    "observer": obs["name"],
                    "port": port,
                    "mcu1": mcus[0],
                    "mcu2": mcus[1],
                }
            )
    return out


TRICKY = [
    "yes", "No", "null", "~", "1e3", "0123", "0x1F", "2020-01-01", "- a", "#x", "'q'", "{a}", "%d", "&x",
    "!tag", "@home", "`cmd`", "[1]", "true", ".inf", "=", "<<"[:0] + "a  b", "12_3", "on", "0.1", "a: b"[:1],
    "Über", "日本", "a\u00a0b", "-", "---", "...",
]


def name_st() -> st.SearchStrategy:
    return st.one_of(
        st.text(alphabet=string.ascii_letters + string.digits + " _-+.#()[]{}!&%$='~äß", min_size=1, max_size=32),
        st.sampled_from(TRICKY),
    ).map(lambda t: "n" if not t.strip() else t).filter(lambda t: t.strip().lower() not in all_names())


@lru_cache
def all_names() -> frozenset:
    return frozenset(str(f.get("name")).lower() for fs in fixtures().values() for f in fs)


def safe_st() -> st.SearchStrategy:
    printable = "".join(chr(c) for c in range(32, 127))
    return st.one_of(
        st.text(alphabet=printable, min_size=1, max_size=60), st.sampled_from(TRICKY[:10] + ["x" * 512])
    ).filter(lambda t: t.strip() != "" and t.isascii())


def id_st() -> st.SearchStrategy:
    return st.one_of(st.integers(0, 2**32), st.integers(0, 2**128 - 1))


def uid_st() -> st.SearchStrategy:
    # an id of a fixture would complete the model with the content of that fixture
    taken = {f.get("id") for lst in fixtures().values() for f in lst}
    return st.one_of(id_st().filter(lambda i: i not in taken), st.uuids(version=4).map(str))


def dt_st(lo_year: int = 1980, hi_year: int = 2150) -> st.SearchStrategy:
    import datetime as dt  # noqa: PLC0415

    tz = st.one_of(
        st.none(),
        st.just(dt.timezone.utc),
        st.integers(-12 * 60, 14 * 60).map(lambda m: dt.timezone(dt.timedelta(minutes=m))),
    )
    return st.datetimes(
        dt.datetime(lo_year, 1, 2), dt.datetime(hi_year, 1, 1), timezones=tz
    ).map(lambda d: d.isoformat())


def td_st(lo_us: int = 0, hi_us: int = 10**12) -> st.SearchStrategy:
    return st.one_of(
        st.integers(lo_us, hi_us).map(lambda us: us / 1e6),
        # only a few microseconds beyond a full second
        st.tuples(st.integers(lo_us // 10**6, min(hi_us // 10**6, 10**5)), st.integers(1, 999)).map(lambda t: t[0] + t[1] / 1e6),
        st.integers(lo_us // 10**6, hi_us // 10**6),
        st.sampled_from([0, 1e-6, 0.5, 59.999999, "PT1.5S", "P1DT2H", 86400]),
    )


def opt(**kw: st.SearchStrategy) -> dict:
    return kw


def fixed(req: dict, optional: dict | None = None) -> st.SearchStrategy:
    return st.fixed_dictionaries(req, optional=optional or {})


def content(extra: dict, optional: dict) -> st.SearchStrategy:
    return fixed(
        {"name": name_st(), **extra},
        {
            "id": uid_st(),
            "description": safe_st(),
            "comment": safe_st(),
            "created": dt_st(),
            "updated_last": dt_st(),
            **({} if "owner" in extra else {"owner": name_st()}),
            "group": name_st(),
            "visible2group": st.just(False),
            **optional,
        },
    ).flatmap(
        lambda d: st.just(d)
        if "description" not in d
        else st.booleans().map(lambda b: {**d, "visible2all": b})
    )


def path_st() -> st.SearchStrategy:
    part = st.text(alphabet=string.ascii_letters + string.digits + "_-. äß", min_size=1, max_size=12)
    # blanks at the end of names are stripped by the models, that is not part of the check
    part = part.map(lambda s: s.strip() or "_")
    return st.tuples(st.booleans(), st.lists(part, min_size=1, max_size=4)).map(
        lambda t: ("/" if t[0] else "x") + "/".join(t[1])
    )


# ------------------------------------------------------------------ models
def pair_st(unit: bool = True) -> st.SearchStrategy:
    return fixed(
        {"gain": log_floats(-12, 3)},
        {"offset": floats(-100, 100), **({"unit": safe_st()} if unit else {})},
    )


def chans(names: list[str]) -> st.SearchStrategy:
    return fixed({}, {n: pair_st() for n in names})


HRV = ["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"]
EMU = ["dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B"]


def cal_cape() -> st.SearchStrategy:
    return fixed({}, {"harvester": chans(HRV), "emulator": chans(EMU), "host": name_st()})


def eenv() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from([f["name"] for f in fixtures()["energyenvironment"]]).map(lambda n: {"name": n}),
        eenv_custom(),
    )


def eenv_custom(valid: st.SearchStrategy | None = None) -> st.SearchStrategy:
    return content(
        {
            "data_path": path_st(),
            "data_type": st.sampled_from(["ivsample", "ivcurve", "isc_voc"]),
            "duration": log_floats(-3, 6),
            "energy_Ws": log_floats(-6, 6),
        },
        {
            "data_local": st.booleans(),
            "valid": valid if valid is not None else st.booleans(),
            "light_source": safe_st(),
            "weather_conditions": safe_st(),
            "indoor": st.booleans(),
            "location": safe_st(),
        },
    )


def fw_path() -> st.SearchStrategy:
    return content(
        {
            "data": path_st().map(lambda p: p + "xyz.hex"),
            "data_type": st.sampled_from(["path_hex", "path_elf"]),
            "mcu": st.sampled_from([{"name": "nRF52"}, {"name": "msp430fr"}, {"id": 1001}]),
        },
        {"data_local": st.booleans(), "data_hash": safe_st()},
    )


ALGOS_EMU = ["cv", "mppt_voc", "mppt_po", "mppt_opt", "neutral"]


def vhrv(algos: list[str] | None = None) -> st.SearchStrategy:
    def ordered(d: dict) -> dict:
        lo, mid, hi = sorted(d.pop("_v"))
        if d.pop("_use_v"):
            d.update(voltage_min_mV=lo, voltage_mV=mid, voltage_max_mV=hi)
            if d.get("voltage_step_mV") is None and hi - lo < 1.001 * (d.get("samples_n", 8) - 1):
                d["voltage_step_mV"] = 1.0  # derived step would be too small
        return d

    return content(
        {
            "algorithm": st.sampled_from(algos or ["isc_voc", "ivcurve", *ALGOS_EMU]),
            "_v": st.lists(st.one_of(floats(0, 5000), st.sampled_from([0, 5000, 2500])), min_size=3, max_size=3),
            "_use_v": st.booleans(),
        },
        {
            "samples_n": st.integers(8, 2000),
            "current_limit_uA": st.one_of(log_floats(0, 4.6), st.sampled_from([1, 50_000])),
            "voltage_step_mV": st.one_of(st.none(), log_floats(0, 6)),
            "setpoint_n": st.one_of(floats(0, 1), st.sampled_from([0, 1, 0.996, 0.9980469])),
            "interval_ms": log_floats(-2, 6),
            "duration_ms": log_floats(-2, 6),
            "rising": st.booleans(),
            "enable_linear_extrapolation": st.booleans(),
            "wait_cycles": st.integers(0, 100),
        },
    ).map(ordered)


def vhrv_any_emu() -> st.SearchStrategy:
    return st.one_of(
        st.sampled_from(["cv20", "cv33", "mppt_voc", "mppt_bq", "mppt_bqt", "mppt_po", "mppt_opt", "direct"]).map(
            lambda n: {"name": n}
        ),
        vhrv(ALGOS_EMU),
    )


def mv(hi: float) -> st.SearchStrategy:
    return st.one_of(floats(0, hi), st.sampled_from([0, hi, hi / 2]), st.integers(0, int(hi)))


VSRC_FIELDS: dict[str, Any] = {
    "enable_boost": st.booleans(),
    "enable_buck": st.booleans(),
    "enable_feedback_to_hrv": st.booleans(),
    "interval_startup_delay_drain_ms": mv(10_000),
    "V_input_max_mV": mv(10_000),
    "I_input_max_mA": mv(4290),
    "V_input_drop_mV": mv(4.29e6),
    "R_input_mOhm": st.one_of(mv(4.29e6), log_floats(-2, 6)),
    "C_intermediate_uF": st.one_of(st.just(0), log_floats(-4, 5), mv(100_000)),
    "V_intermediate_init_mV": mv(10_000),
    "I_intermediate_leak_nA": mv(4.29e9),
    "V_intermediate_enable_threshold_mV": mv(10_000),
    "V_intermediate_disable_threshold_mV": mv(10_000),
    "interval_check_thresholds_ms": mv(4290),
    "V_pwr_good_enable_threshold_mV": mv(10_000),
    "V_pwr_good_disable_threshold_mV": mv(10_000),
    "immediate_pwr_good_signal": st.booleans(),
    "C_output_uF": st.one_of(st.just(0), log_floats(-3, 6.6), log_floats(-3, 2)),
    "V_output_log_gpio_threshold_mV": st.one_of(mv(10_000), mv(4.29e6)),
    "V_input_boost_threshold_mV": mv(10_000),
    "V_intermediate_max_mV": mv(10_000),
    "LUT_input_V_min_log2_uV": st.integers(0, 20),
    "LUT_input_I_min_log2_nA": st.integers(1, 20),
    "V_output_mV": mv(5_000),
    "V_buck_drop_mV": mv(5_000),
    "LUT_output_I_min_log2_nA": st.integers(1, 20),
}


def lut_val() -> st.SearchStrategy:
    return st.one_of(floats(0, 1), st.sampled_from([0, 1, 0.5, 1e-3, 0.999]))


def vsrc() -> st.SearchStrategy:
    # most sources of interest derive from a fixture
    names = [f["name"] for f in fixtures()["virtualsourceconfig"]]
    base = content(
        {"owner": name_st()},
        {
            "inherit_from": st.sampled_from(names),
            "harvester": vhrv_any_emu(),
            "LUT_output_efficiency": st.lists(lut_val(), min_size=12, max_size=12),
            "LUT_input_efficiency": st.lists(
                st.lists(lut_val(), min_size=12, max_size=12), min_size=12, max_size=12
            ),
            **VSRC_FIELDS,
        },
    )
    return base


def vsrc_any() -> st.SearchStrategy:
    names = [f["name"] for f in fixtures()["virtualsourceconfig"]]
    return st.one_of(st.sampled_from(names).map(lambda n: {"name": n}), vsrc())


def power_tracing() -> st.SearchStrategy:
    return fixed(
        {},
        {
            "intermediate_voltage": st.booleans(),
            "delay": td_st(),
            "duration": td_st(),
            "samplerate": st.integers(10, 100_000),
            "discard_current": st.just(True),
        },
    )


def gpio_tracing() -> st.SearchStrategy:
    return fixed(
        {},
        {
            "mask": st.integers(1, 1023),
            "gpios": st.lists(gpio_ref(), min_size=1, max_size=10),
            "delay": td_st(),
            "duration": td_st(),
            "uart_decode": st.booleans(),
            "uart_pin": gpio_ref(),
            "uart_baudrate": st.integers(2400, 921_600),
        },
    )


def gpio_ref() -> st.SearchStrategy:
    return st.sampled_from(fixtures()["gpio"]).flatmap(
        lambda g: st.sampled_from([{"name": g["name"]}, {"id": g["id"]}])
    )


def gpio() -> st.SearchStrategy:
    return fixed(
        {
            "id": st.integers(5000, 10**9),
            "name": name_st(),
            "reg_sys": st.integers(0, 10**6),
            "pin_sys": st.sampled_from(["P8_11", "x"]),
        },
        {
            "description": safe_st(),
            "comment": safe_st(),
            "direction": st.sampled_from(["IN", "OUT", "IO"]),
            "dir_switch": st.sampled_from(["DIR1", "a b"]),
            "reg_pru": st.sampled_from(["r31_00", "r30"]),
            "pin_pru": st.sampled_from(["P8_45", "q"]),
        },
    )


def gpio_event() -> st.SearchStrategy:
    # no fixture-pin offers output to users besides those marked IO
    pins = [
        g["name"]
        for g in fixtures()["gpio"]
        if "gpio" in g["name"].lower() and g.get("direction") in {"IO", "OUT"}
    ]
    return fixed(
        {
            "delay": log_floats(-5, 4),
            "gpio": st.sampled_from(pins or ["GPIO0"]).map(lambda n: {"name": n}),
            "level": st.sampled_from(["L", "H", "X"]),
        },
        {"period": log_floats(-4, 3), "count": st.integers(1, 4096)},
    )


def sys_logging() -> st.SearchStrategy:
    return fixed({}, {k: st.booleans() for k in ("dmesg", "ptp", "shepherd")})


def harvest_task() -> st.SearchStrategy:
    return fixed(
        {"output_path": path_st()},
        {
            "force_overwrite": st.booleans(),
            "output_compression": st.sampled_from(["lzf", "1", None]),
            "time_start": st.one_of(dt_st(2091), st.none()),
            "duration": st.one_of(td_st(), st.none()),
            "abort_on_error": st.booleans(),
            "use_cal_default": st.booleans(),
            "virtual_harvester": st.one_of(
                vhrv(["isc_voc", "ivcurve", "cv", "mppt_po"]),
                st.sampled_from(["iv1000", "isc_voc", "mppt_opt"]).map(lambda n: {"name": n}),
            ),
            "power_tracing": power_tracing(),
            "sys_logging": st.one_of(sys_logging(), st.none()),
            "verbose": st.integers(0, 4),
        },
    )


def emulation_task() -> st.SearchStrategy:
    return fixed(
        {"input_path": path_st()},
        {
            "output_path": st.one_of(path_st(), st.none()),
            "force_overwrite": st.booleans(),
            "output_compression": st.sampled_from(["lzf", "1", None]),
            "time_start": st.one_of(dt_st(2091), st.none()),
            "duration": st.one_of(td_st(), st.none()),
            "abort_on_error": st.booleans(),
            "use_cal_default": st.booleans(),
            "enable_io": st.booleans(),
            "io_port": st.sampled_from("AB"),
            "pwr_port": st.sampled_from("AB"),
            "voltage_aux": st.one_of(floats(0, 4.5), st.sampled_from(["main", "buffer", 0, 4.5])),
            "virtual_source": vsrc_any(),
            "power_tracing": st.one_of(power_tracing(), st.none()),
            "gpio_tracing": st.one_of(gpio_tracing(), st.none()),
            "sys_logging": st.one_of(sys_logging(), st.none()),
            "verbose": st.integers(0, 4),
        },
    )


def fw_mod_task() -> st.SearchStrategy:
    return fixed(
        {
            "data": st.text(alphabet=string.ascii_letters + string.digits + "+/=", min_size=3, max_size=300),
            "data_type": st.sampled_from(["hex", "elf", "path_hex", "path_elf"]),
            "firmware_file": path_st(),
        },
        {"custom_id": st.one_of(st.none(), st.integers(0, 2**16 - 1)), "verbose": st.integers(0, 4)},
    )


def programming_task() -> st.SearchStrategy:
    return fixed(
        {
            "firmware_file": path_st().flatmap(
                lambda p: st.sampled_from([".hex", ".ihex", ".ihx", ".HEX"]).map(lambda s: p + "a" + s)
            ),
            "mcu_type": safe_st(),
            "protocol": st.sampled_from(["SWD", "SBW", "JTAG", "UART"]),
        },
        {
            "target_port": st.sampled_from("AB"),
            "mcu_port": st.integers(1, 2),
            "voltage": floats(1, 4.999),
            "datarate": st.integers(1, 10**6),
            "simulate": st.booleans(),
            "verbose": st.integers(0, 4),
        },
    )


def observer_tasks() -> st.SearchStrategy:
    return fixed(
        {
            "observer": name_st(),
            "owner_id": st.one_of(st.none(), id_st()),
            "time_prep": dt_st(),
            "root_path": path_st(),
            "abort_on_error": st.booleans(),
        },
        {
            "fw1_mod": fw_mod_task(),
            "fw2_mod": fw_mod_task(),
            "fw1_prog": programming_task(),
            "fw2_prog": st.one_of(st.none(), programming_task()),
            "emulation": emulation_task(),
        },
    )


def testbed_tasks() -> st.SearchStrategy:
    return fixed(
        {
            "name": name_st(),
            "observer_tasks": st.lists(observer_tasks(), min_size=1, max_size=3),
            "owner_id": st.one_of(st.none(), id_st()),
        },
        {"email_results": st.booleans()},
    )


def mcu_key(mcu: dict | None) -> Any:
    return None if mcu is None else mcu["id"]


@lru_cache
def firmwares_by_mcu() -> dict:
    out: dict = {}
    mcus = {str(m["name"]).lower(): m["id"] for m in fixtures()["mcu"]}
    mcus.update({m["id"]: m["id"] for m in fixtures()["mcu"]})
    for fw in fixtures()["firmware"]:
        ref = fw["mcu"].get("name", fw["mcu"].get("id"))
        ref = ref.lower() if isinstance(ref, str) else ref
        out.setdefault(mcus[ref], []).append(fw["name"])
    return out


def valid_eenv() -> st.SearchStrategy:
    names = [f["name"] for f in fixtures()["energyenvironment"] if f.get("valid")]
    return st.one_of(
        st.sampled_from(names).map(lambda n: {"name": n}),
        eenv_custom(valid=st.just(True)).map(lambda d: {**d, "valid": True}),
    )


def experiment(max_targets: int = 8) -> st.SearchStrategy:
    """Valid experiments: every observer at most once, matching firmwares."""
    tgts = testbed_targets()

    @st.composite
    def build(draw: Any) -> dict:
        by_obs: dict = {}
        for tgt in tgts:
            by_obs.setdefault(tgt["observer"], []).append(tgt)
        obs = draw(st.lists(st.sampled_from(sorted(by_obs)), min_size=1, max_size=max_targets, unique=True))
        chosen = [draw(st.sampled_from(by_obs[o])) for o in obs]
        # split into configs, only targets with identical mcus may share a config
        configs: list[list[dict]] = []
        for tgt in chosen:
            key = (mcu_key(tgt["mcu1"]), mcu_key(tgt["mcu2"]))
            last = configs[-1] if configs else None
            if (
                last
                and key == (mcu_key(last[0]["mcu1"]), mcu_key(last[0]["mcu2"]))
                and draw(st.booleans())
            ):
                last.append(tgt)
            else:
                configs.append([tgt])
        use_custom = draw(st.booleans())
        pool = draw(st.lists(st.integers(2_000, 2**16 - 1), min_size=40, max_size=40, unique=True)) if use_custom else []
        out = []
        for grp in configs:
            cfg: dict = {"target_IDs": [t["target"] for t in grp], "energy_env": draw(valid_eenv())}
            if use_custom and draw(st.booleans()):
                extra = draw(st.integers(0, 2))
                cfg["custom_IDs"] = [pool.pop() for _ in range(len(grp) + extra)]
            fws = firmwares_by_mcu()
            cfg["firmware1"] = {"name": draw(st.sampled_from(fws[mcu_key(grp[0]["mcu1"])]))}
            if grp[0]["mcu2"] is not None and draw(st.booleans()):
                cfg["firmware2"] = {"name": draw(st.sampled_from(fws[mcu_key(grp[0]["mcu2"])]))}
            if draw(st.booleans()):
                cfg["virtual_source"] = draw(vsrc_any())
            if draw(st.booleans()):
                cfg["power_tracing"] = draw(power_tracing())
            if draw(st.booleans()):
                cfg["gpio_tracing"] = draw(gpio_tracing())
            if draw(st.booleans()):
                cfg["target_delays"] = draw(st.lists(st.integers(0, 10**6), min_size=1, max_size=4))
            out.append(cfg)
        return draw(
            fixed(
                {"name": name_st().filter(lambda n: len(n.strip()) > 0), "target_configs": st.just(out)},
                {
                    "id": uid_st(),
                    "description": safe_st(),
                    "comment": safe_st(),
                    "created": dt_st(),
                    "owner_id": id_st(),
                    "email_results": st.booleans(),
                    "sys_logging": sys_logging(),
                    "time_start": dt_st(2091),
                    "duration": td_st(1),
                    "abort_on_error": st.booleans(),
                },
            )
        )

    return build()


def target() -> st.SearchStrategy:
    return fixed(
        {
            "id": st.integers(10**7, 10**12),
            "name": name_st(),
            "version": name_st(),
            "description": safe_st(),
            "mcu1": st.sampled_from([{"name": "nRF52"}, "msp430fr", {"id": 1001}]),
        },
        {
            "comment": safe_st(),
            "active": st.booleans(),
            "created": dt_st(),
            "testbed_id": st.integers(0, 2**16 - 1),
            "mcu2": st.sampled_from([None, "nrf52", {"name": "MSP430FR"}]),
        },
    )


def cape() -> st.SearchStrategy:
    return fixed(
        {
            "id": st.integers(10**7, 10**12),
            "name": name_st(),
            "version": name_st(),
            "description": safe_st(),
        },
        {"comment": safe_st(), "active": st.booleans(), "created": dt_st(), "calibrated": dt_st()},
    )


def observer() -> st.SearchStrategy:
    return fixed(
        {
            "id": st.integers(10**7, 10**12),
            "name": name_st(),
            "description": safe_st(),
            "ip": st.one_of(
                st.ip_addresses(v=4).map(str), st.ip_addresses(v=6).map(str)
            ),
            "mac": st.lists(st.integers(0, 255), min_size=6, max_size=6).map(
                lambda b: ":".join(f"{x:02X}" for x in b)
            ),
            "room": name_st(),
            "eth_port": name_st(),
            "cape": st.one_of(cape(), st.just({"name": "cape51"})),
        },
        {
            "comment": safe_st(),
            "latitude": floats(-90, 90),
            "longitude": floats(-180, 180),
            "active": st.booleans(),
            "target_a": target(),
            "target_b": target(),
            "created": dt_st(),
            "alive_last": dt_st(),
        },
    )


def mcu() -> st.SearchStrategy:
    return fixed(
        {
            "id": st.integers(10**7, 10**12),
            "name": name_st(),
            "description": safe_st(),
            "platform": name_st(),
            "core": name_st(),
            "prog_protocol": st.sampled_from(["SWD", "SBW", "JTAG", "UART"]),
            "fw_name_default": safe_st(),
        },
        {"comment": safe_st(), "prog_voltage": floats(1, 5), "prog_datarate": st.integers(1, 10**6)},
    )


def testbed() -> st.SearchStrategy:
    return fixed(
        {
            "id": st.integers(10**7, 10**12),
            "name": name_st(),
            "description": safe_st(),
            "observers": st.lists(
                observer(),
                min_size=1,
                max_size=4,
            ),
            "data_on_server": path_st(),
            "data_on_observer": path_st(),
        },
        {
            "comment": safe_st(),
            "url": st.sampled_from(["http://a.de/x?y=1", "https://example.org", "http://[::1]:80/"]),
            "prep_duration": td_st(),
        },
    )


def uniq_testbed() -> st.SearchStrategy:
    """Testbeds whose observers share nothing."""

    def fix(d: dict) -> dict:
        for num, obs in enumerate(d["observers"]):
            obs["id"] = 10**7 + num
            obs["ip"] = f"10.0.{num}.1" if num % 2 else f"fe80::{num}"
            obs["mac"] = f"00:11:22:33:44:{num:02X}"
            obs["eth_port"] = f"port{num}"
            if "id" in obs["cape"]:
                obs["cape"]["id"] = 2 * 10**7 + num
            else:
                obs["cape"] = {"name": f"cape{51 + num}"}
            for sub, key in enumerate(("target_a", "target_b")):
                if key in obs:
                    obs[key]["id"] = 3 * 10**7 + 2 * num + sub
        return d

    return testbed().map(fix)


def by_name() -> dict:
    return {
        "CalibrationPair": pair_st(),
        "CalibrationHarvester": chans(HRV),
        "CalibrationEmulator": chans(EMU),
        "CalibrationCape": cal_cape(),
        "CalibrationSeries": chans(["voltage", "current", "time"]),
        "EnergyEnvironment": eenv(),
        "Firmware": fw_path(),
        "VirtualHarvesterConfig": vhrv(),
        "VirtualSourceConfig": vsrc(),
        "PowerTracing": power_tracing(),
        "GpioTracing": gpio_tracing(),
        "SystemLogging": sys_logging(),
        "GPIO": gpio(),
        "MCU": mcu(),
        "Cape": cape(),
        "Target": target(),
        "Observer": observer(),
        "Testbed": uniq_testbed(),
        "HarvestTask": harvest_task(),
        "EmulationTask": emulation_task(),
        "FirmwareModTask": fw_mod_task(),
        "ProgrammingTask": programming_task(),
        "ObserverTasks": observer_tasks(),
        "TestbedTasks": testbed_tasks(),
        "Experiment": experiment(),
    }


def classes() -> dict:
    import shepherd_core.data_models as dm  # noqa: PLC0415
    from shepherd_core.data_models import experiment as exp  # noqa: PLC0415
    from shepherd_core.data_models import task  # noqa: PLC0415
    from shepherd_core.data_models import testbed as tbm  # noqa: PLC0415

    out: dict = {}
    for mod in (dm, exp, task, tbm):
        for name in mod.__all__:
            out[name] = getattr(mod, name)
    return out
