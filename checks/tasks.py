"""P21-P24: experiments, derived tasks, validation of tasks and of the testbed."""

from __future__ import annotations

import copy
import os
import time
from contextlib import contextmanager
from datetime import datetime
from datetime import timedelta
from datetime import timezone
from pathlib import PurePosixPath

import numpy as np
from hypothesis import strategies as st

from harness import models as gen
from harness.core import facet
from harness.util import floats
from harness.util import log_floats
from harness.util import seeded
from harness.util import silence
from shepherd_core import local_now
from shepherd_core import local_tz
from shepherd_core.data_models import Experiment
from shepherd_core.data_models import GpioActuation
from shepherd_core.data_models import GpioEvent
from shepherd_core.data_models import GpioTracing
from shepherd_core.data_models import PowerTracing
from shepherd_core.data_models.task import EmulationTask
from shepherd_core.data_models.task import HarvestTask
from shepherd_core.data_models.task import ObserverTasks
from shepherd_core.data_models.task import ProgrammingTask
from shepherd_core.data_models.task import TestbedTasks as TbTasks
from shepherd_core.data_models.task import extract_tasks
from shepherd_core.data_models.task import prepare_task
from shepherd_core.data_models.testbed import GPIO
from shepherd_core.data_models.testbed import Observer
from shepherd_core.data_models.testbed import Target
from shepherd_core.data_models.testbed import Testbed as TbModel

MCUS = [
    {"id": 1001, "name": "nRF52", "prog_protocol": "SWD", "prog_voltage": 3, "prog_datarate": 500_000, "fw_name_default": "nrf52_demo_rf"},
    {"id": 1002, "name": "MSP430FR", "prog_protocol": "SBW", "prog_voltage": 3, "prog_datarate": 500_000, "fw_name_default": "msp430_deep_sleep"},
    {"id": 51001, "name": "RV32", "prog_protocol": "JTAG", "prog_voltage": 1.0, "prog_datarate": 1, "fw_name_default": "not_available"},
    {"id": 51002, "name": "AVR", "prog_protocol": "UART", "prog_voltage": 5, "prog_datarate": 1_000_000, "fw_name_default": "nrf52_demo_rf"},
    {"id": 51003, "name": "nRF53", "prog_protocol": "SWD", "prog_voltage": 1.8, "prog_datarate": 77_777, "fw_name_default": "nrf52_demo_rf"},
]
DEFAULT_FW = {"nrf52_demo_rf": 1001, "msp430_deep_sleep": 1002}
TB_ID, TB_NAME = 1337, "shepherd_tud_nes"
FIRST_TGT = 40_000_000


def mcu_dict(pos: int) -> dict:
    out = dict(MCUS[pos])
    if pos < 2:
        return {"name": out["name"]}
    out.update(description="mcu", platform="p", core="c")
    return out


# --------------------------------------------------------------------------- world


def world_gen(rng, *, ideal: float = 0.7) -> dict:
    """Testbed with observers, capes and targets."""
    observers = []
    num_tgt = 0
    style = rng.random()
    # identifiers of targets and nodes may share their range
    first = rng.choice([FIRST_TGT, 2000])
    # names may contain each other
    names = [f"sheep_{chr(97 + num)}" for num in range(6)]
    if rng.random() < 0.5:
        names = [f"goat{num}" for num in (1, 10, 100, 2, 21, 12)]
        rng.shuffle(names)
    elif rng.random() < 0.4:
        names = [f"observer-at-room_{num}.lab" for num in (1, 2, 10, 11, 100, 101)]
    for num in range(rng.randint(1, 6)):
        tgts = []
        for port in "AB":
            if rng.random() < (0.75 if port == "A" else 0.35):
                pos = rng.randrange(len(MCUS)) if rng.random() < 0.5 else 0
                tgts.append(
                    {
                        "port": port,
                        "id": first + num_tgt if style < 0.5 else first + num_tgt + 2**16 * rng.randrange(3),
                        "active": rng.random() < 0.5 + ideal / 2,
                        "testbed_id": rng.choice([None, rng.randrange(2**16), num_tgt, 0, 2**16 - 1]) if rng.random() < 0.6 else None,
                        "mcu1": pos,
                        "mcu2": rng.choice([None, 0, 1, rng.randrange(len(MCUS))]),
                    }
                )
                num_tgt += 1
        observers.append(
            {
                "id": 60_000_000 + num,
                "name": names[num],
                "active": rng.random() < 0.6 + ideal / 2,
                # ⤷ targets need a cape
                "cape": (rng.random() < 0.5 + ideal / 2) if tgts or rng.random() < 0.4 else None,
                "targets": tgts,
            }
        )
    return {
        "observers": observers,
        "prep": rng.choice([0, 1, 300, 3600, 90_061.5]),
        "data": rng.choice(["/var/shepherd/", "/srv/x", "/a b/c"]),
    }


def target_dict(tgt: dict) -> dict:
    return {
        "id": tgt["id"],
        "name": f"tgt_{tgt['id']}",
        "version": "v1",
        "description": "generated",
        "comment": "x",
        "active": tgt["active"],
        "created": "2024-01-01T00:00:00",
        "testbed_id": tgt["testbed_id"],
        "mcu1": mcu_dict(tgt["mcu1"]),
        "mcu2": None if tgt["mcu2"] is None else mcu_dict(tgt["mcu2"]),
    }


def world_dict(world: dict) -> dict:
    observers = []
    for num, obs in enumerate(world["observers"]):
        item = {
            "id": obs["id"],
            "name": obs["name"],
            "description": "generated",
            "ip": f"10.1.0.{num + 1}",
            "mac": f"00:11:22:33:55:{num:02X}",
            "room": "r",
            "eth_port": f"p{num}",
            "active": obs["active"],
            "cape": None
            if obs["cape"] is None
            else {"id": 70_000_000 + num, "name": f"cape_{num}", "version": "1", "description": "c", "active": obs["cape"], "created": "2024-01-01"},
        }
        for tgt in obs["targets"]:
            item["target_" + tgt["port"].lower()] = target_dict(tgt)
        observers.append(item)
    return {
        "id": TB_ID,
        "name": TB_NAME,
        "description": "generated",
        "url": None,
        "comment": None,
        "shared_storage": True,
        "observers": observers,
        "data_on_server": "/var/srv",
        "data_on_observer": world["data"],
        "prep_duration": world["prep"],
    }


@contextmanager
def active_world(world: dict):
    """Let the database answer with the generated testbed."""
    from shepherd_core.testbed_client import tb_client  # noqa: PLC0415

    with silence():
        original = TbModel(id=TB_ID)
        try:
            testbed = TbModel(**world_dict(world))
            tb_client.insert(testbed)
            for obs in world["observers"]:
                for tgt in obs["targets"]:
                    tb_client.insert(Target(**target_dict(tgt)))
            yield testbed
        finally:
            tb_client.insert(original)


def known_targets(world: dict) -> dict:
    return {t["id"]: (t, o) for o in world["observers"] for t in o["targets"]}


def usable(tgt: dict, obs: dict) -> bool:
    return bool(tgt["active"] and obs["active"] and obs["cape"])


def node_id(tgt: dict) -> int:
    return tgt["id"] % 2**16 if tgt["testbed_id"] is None else tgt["testbed_id"]


# --------------------------------------------------------------------------- experiments


FWS = {0: "nrf52_demo_rf", 1: "msp430_deep_sleep"}


def fw_dict(pos: int, kind: int = 0) -> dict:
    if pos in FWS and kind == 0:
        return {"name": FWS[pos]}
    return {
        "id": 9_000_000 + pos,
        "name": f"fw_{pos}",
        "mcu": mcu_dict(pos),
        "data": f"/some/where/fw_{pos}" + (".elf" if kind % 2 else ".hex"),
        "data_type": "path_elf" if kind % 2 else "path_hex",
        "owner": "me",
        "group": "us",
    }


TRACE_P = [None, {"samplerate": 1000, "delay": 3}, {"intermediate_voltage": True, "discard_current": True}]
TRACE_G = [None, {}, {"mask": 3, "uart_decode": True, "uart_baudrate": 9600}]
VSRC = [None, {"name": "BQ25504"}, {"name": "diode+capacitor", "V_output_mV": 1801}]


def xp_gen(rng, world: dict) -> dict:
    """Mostly valid experiment for the testbed."""
    good = [(t, o) for o in world["observers"] for t in o["targets"] if usable(t, o)]
    rng.shuffle(good)
    chosen, seen = [], set()
    for tgt, obs in good:
        if obs["name"] not in seen or rng.random() < 0.05:
            chosen.append(tgt)
            seen.add(obs["name"])
    chosen = chosen[: rng.randint(1, 6)]
    groups: list = []
    for tgt in chosen:
        fit = [g for g in groups if g[0]["mcu1"] == tgt["mcu1"] and (g[0]["mcu2"] == tgt["mcu2"])]
        if fit and rng.random() < 0.7:
            fit[0].append(tgt)
        else:
            groups.append([tgt])
    configs = []
    used = {node_id(t) for t in chosen}
    for grp in groups:
        cfg: dict = {
            "targets": [t["id"] for t in grp],
            "custom": None,
            "env": rng.choice(["named", "own"]),
            "fw1": [grp[0]["mcu1"], rng.randrange(3)],
            "fw2": None,
            "power": rng.randrange(3),
            "gpio": rng.randrange(3),
            "vsrc": rng.randrange(3),
        }
        two = grp[0]["mcu2"]
        if two is not None and (rng.random() < 0.6 or two > 1):
            cfg["fw2"] = [two, rng.randrange(3)]
        if rng.random() < 0.5:
            n = len(grp) + rng.choice([0, 0, 0, 1, 3])
            pick: list = []
            while len(pick) < n:
                val = rng.choice([rng.randrange(2**16), rng.randrange(20), len(pick)])
                if val not in used:
                    used.add(val)
                    pick.append(val)
            cfg["custom"] = pick
        configs.append(cfg)
    if not configs:
        configs = [{"targets": [1], "custom": None, "env": "named", "fw1": [0, 0], "fw2": None, "power": 0, "gpio": 0, "vsrc": 0}]
    return {
        "configs": configs,
        "name": rng.choice(["xp", "My Experiment", "a.b-c"]),
        "start": rng.choice([None, "2095-05-06T07:08:09", "2095-05-06T07:08:09.250000+02:00", "2094-12-31T23:59:59Z"]),
        "duration": rng.choice([None, 0, 1, 3600, 0.25]),
        "owner": rng.choice([None, 5]),
        "email": rng.random() < 0.5,
        "abort": rng.random() < 0.5,
        "logging": rng.choice([None, {key: rng.random() < 0.5 for key in ("dmesg", "ptp", "shepherd")}]),
    }


def env_dict(kind: str) -> dict:
    if kind == "named":
        return {"name": "eenv_static_3000mV_5mA_3600s"}
    return {
        "id": 8_000_001,
        "name": "own_env",
        "data_path": "/data/own env.h5",
        "data_type": "isc_voc",
        "duration": 60,
        "energy_Ws": 1.5,
        "valid": kind == "own",
        "owner": "me",
        "group": "us",
    }


def xp_dict(xp: dict) -> dict:
    configs = []
    for cfg in xp["configs"]:
        item = {
            "target_IDs": cfg["targets"],
            "energy_env": env_dict(cfg["env"]),
            "firmware1": fw_dict(*cfg["fw1"]),
        }
        if cfg["custom"] is not None:
            item["custom_IDs"] = cfg["custom"]
        if cfg["fw2"] is not None:
            item["firmware2"] = fw_dict(*cfg["fw2"])
        for key, name, pool in (("power", "power_tracing", TRACE_P), ("gpio", "gpio_tracing", TRACE_G), ("vsrc", "virtual_source", VSRC)):
            if pool[cfg[key]] is not None:
                item[name] = pool[cfg[key]]
        configs.append(item)
    out = {
        "id": 4711,
        "name": xp["name"],
        "created": "2024-01-01T00:00:00",
        "target_configs": configs,
        "email_results": xp["email"],
        "abort_on_error": xp["abort"],
    }
    if xp["start"] is not None:
        out["time_start"] = xp["start"]
    if xp["duration"] is not None:
        out["duration"] = xp["duration"]
    if xp["owner"] is not None:
        out["owner_id"] = xp["owner"]
    if xp["logging"] is not None:
        out["sys_logging"] = xp["logging"]
    return copy.deepcopy(out)


def verdict(world: dict, xp: dict) -> list[str]:
    """Reasons to refuse this experiment."""
    known = known_targets(world)
    why = []
    all_ids: list = []
    nodes: list = []
    hosts: list = []
    for cfg in xp["configs"]:
        if cfg["env"] == "invalid":
            why.append("invalid environment")
        if not cfg["targets"]:
            why.append("no targets")
        for pos, tid in enumerate(cfg["targets"]):
            all_ids.append(tid)
            if tid not in known:
                why.append("unknown target")
                continue
            tgt, obs = known[tid]
            if not usable(tgt, obs):
                why.append("target out of service")
            hosts.append(obs["name"])
            for key, fw in (("mcu1", cfg["fw1"]), ("mcu2", cfg["fw2"])):
                mcu = tgt[key]
                if mcu is None:
                    continue
                if fw is not None and fw[0] != mcu:
                    why.append("firmware does not fit")
                if fw is None and DEFAULT_FW.get(MCUS[mcu]["fw_name_default"]) != MCUS[mcu]["id"]:
                    why.append("default firmware does not fit")
            if cfg["custom"] is None:
                nodes.append(node_id(tgt))
            elif pos < len(cfg["custom"]):
                nodes.append(cfg["custom"][pos])
            else:
                why.append("not enough custom ids")
        if cfg["custom"] is not None and not cfg["custom"]:
            why.append("empty list")
        if any(not 0 <= c < 2**16 for c in cfg["custom"] or []):
            why.append("custom id out of range")
    if len(set(all_ids)) < len(all_ids):
        why.append("target used twice")
    if len(set(nodes)) < len(nodes):
        why.append("node-id used twice")
    if len(set(hosts)) < len(hosts):
        why.append("observer used twice")
    if xp["duration"] is not None and xp["duration"] < 0:
        why.append("negative duration")
    return why


def mutate(rng, world: dict, xp: dict) -> str:
    """One change to the experiment that may or may not invalidate it."""
    cfg = rng.choice(xp["configs"])
    kind = rng.choice(
        ["unknown", "again", "again_other", "any_target", "invalid_env", "fw1", "fw2", "no_fw2", "custom_dup",
         "custom_short", "custom_collide", "custom_range", "custom_late", "duration", "no_custom", "custom_hidden"]
    )
    ids = sorted(known_targets(world))
    if kind == "unknown":
        cfg["targets"][rng.randrange(len(cfg["targets"]))] = rng.choice([99_999_999, 12_345_678])
    elif kind == "again":
        cfg["targets"].append(rng.choice(cfg["targets"]))
    elif kind == "again_other":
        xp["configs"].append(copy.deepcopy(cfg))
    elif kind == "any_target" and ids:
        cfg["targets"].append(rng.choice(ids))
    elif kind == "invalid_env":
        cfg["env"] = "invalid"
    elif kind == "fw1":
        cfg["fw1"][0] = rng.randrange(len(MCUS))
    elif kind == "fw2" and cfg["fw2"]:
        cfg["fw2"][0] = rng.randrange(len(MCUS))
    elif kind == "no_fw2":
        cfg["fw2"] = None
    elif kind == "custom_dup" and cfg["custom"]:
        cfg["custom"][-1] = cfg["custom"][0]
    elif kind == "custom_short" and cfg["custom"]:
        cfg["custom"].pop()
    elif kind == "custom_collide" and cfg["custom"]:
        known = known_targets(world)
        cfg["custom"][0] = rng.choice([node_id(t) for t, _ in known.values()] or [0])
    elif kind == "custom_range" and cfg["custom"]:
        cfg["custom"][-1] = rng.choice([-1, 2**16, 2**31])
    elif kind == "custom_late" and cfg["custom"]:
        # surplus ids are not used, so duplicates there don't harm
        cfg["custom"].append(cfg["custom"][0])
    elif kind == "custom_hidden":
        # same number of different ids, but collision in the used part
        n = len(cfg["targets"])
        cfg["custom"] = [11] * min(2, n) + list(range(20, 20 + n))
    elif kind == "duration":
        xp["duration"] = rng.choice([-1, -0.5, -86400, 0])
    elif kind == "no_custom":
        cfg["custom"] = None
    return kind


def p21_gen(rng) -> dict:
    world = world_gen(rng)
    xp = xp_gen(rng, world)
    kinds = [mutate(rng, world, xp) for _ in range(rng.choice([0, 1, 1, 2]))]
    return {"world": world, "xp": xp, "kinds": kinds}


@facet(
    "P21",
    "accept_refuse",
    lambda: seeded(p21_gen),
    quick=3000,
    thorough=20_000,
    shards=4,
    rule="experiment (with 0-2 deviations) for a generated testbed is accepted exactly if the documented rules hold; non-trivial: testbed has targets & either 2+ targets are used or it has to be refused",
    shrink=True,
)
def p21_accept(case, ctx):
    world, xp = case["world"], case["xp"]
    if not xp["configs"] or any(not c["targets"] for c in xp["configs"]):
        return
    why = verdict(world, xp)
    with active_world(world), silence():
        data = xp_dict(xp)
        before = copy.deepcopy(data)
        if why:
            err = ctx.raises(lambda: Experiment(**data), f"experiment ({', '.join(sorted(set(why)))})", (ValueError,))
            ctx.check(err is not None, "refused")
        else:
            model = Experiment(**data)
            ids = [t for c in xp["configs"] for t in c["targets"]]
            ctx.eq(model.get_target_ids(), ids, "ids of targets")
            for num, cfg in enumerate(xp["configs"]):
                for pos, tid in enumerate(cfg["targets"]):
                    got = model.get_target_config(tid)
                    ctx.eq(got, model.target_configs[num], "config of target")
                    ctx.eq(got.get_custom_id(tid), None if cfg["custom"] is None else cfg["custom"][pos], "custom id")
            ctx.raises(lambda: model.get_target_config(99_999_999), "config of unknown target", (ValueError,))
        ctx.eq(data, before, "given data was altered")
    ctx.label(*(sorted(set(why)) or ["valid"]))
    ctx.nontrivial(bool(known_targets(world)) and (bool(why) or sum(len(c["targets"]) for c in xp["configs"]) > 1))


# --------------------------------------------------------------------------- derived tasks


def instant(txt: str | datetime) -> float:
    if isinstance(txt, datetime):
        return txt.timestamp()
    return datetime.fromisoformat(txt.replace("Z", "+00:00")).timestamp()


def p22_gen(rng) -> dict:
    while True:
        world = world_gen(rng, ideal=0.9)
        xp = xp_gen(rng, world)
        if not verdict(world, xp):
            break
    return {"world": world, "xp": xp, "via": rng.choice(["model", "file", "dump"]), "tb": rng.choice(["given", "query"]), "shift": rng.choice([1, 7, 60, 3600, 86_400, 30 * 86_400, 12 * 3600])}


def check_tasks(ctx, tasks: ObserverTasks, world: dict, xp: dict, cfg: dict, pos: int, model: Experiment, now: float) -> None:
    tid = cfg["targets"][pos]
    tgt, obs = known_targets(world)[tid]
    name = obs["name"]
    ctx.eq(tasks.observer, name, "observer")
    ctx.eq(tasks.owner_id, xp["owner"], "owner")
    ctx.eq(tasks.abort_on_error, xp["abort"], "abort on error")
    if xp["start"] is None:
        ctx.check(tasks.time_prep.timestamp() >= now - world["prep"] - 1, "preparation is scheduled before now - duration")
    else:
        ctx.close(tasks.time_prep.timestamp(), instant(xp["start"]) - world["prep"], "start of preparation", rel=0, abs_=1e-3)
    root = tasks.root_path.as_posix()
    base = PurePosixPath(world["data"]) / "experiments"
    ctx.check(PurePosixPath(root).parent == base and PurePosixPath(root).name.startswith(xp["name"]), f"root path {root} not in {base}")
    if xp["start"] is not None:
        ctx.check("2095-05-06" in root or "2094-12-31" in root, "date of start missing in path")
    # firmware
    for num, key in ((1, "fw1"), (2, "fw2")):
        mod, prog = getattr(tasks, f"fw{num}_mod"), getattr(tasks, f"fw{num}_prog")
        if cfg[key] is None:
            ctx.eq((mod, prog), (None, None), f"tasks for missing firmware {num}")
            continue
        fw = getattr(model.target_configs[xp["configs"].index(cfg)], f"firmware{num}")
        mcu = MCUS[cfg[key][0]]
        want_id = node_id(tgt) if cfg["custom"] is None else cfg["custom"][pos]
        ctx.check(mod is not None and prog is not None, f"tasks for firmware {num} missing")
        ctx.eq(mod.custom_id, want_id, "node-id in firmware")
        ctx.eq(str(mod.data), str(fw.data), "firmware")
        ctx.eq(mod.data_type, fw.data_type, "type of firmware")
        ctx.eq(mod.firmware_file, prog.firmware_file, "programmed is not the modified firmware")
        ctx.eq(mod.firmware_file.parent.as_posix(), root, "folder of firmware")
        ctx.check(name in mod.firmware_file.name, "name of observer missing in firmware-file")
        ctx.eq(prog.target_port, tgt["port"], "port for programming")
        ctx.eq(prog.mcu_port, num, "number of mcu")
        ctx.eq(prog.mcu_type, mcu["name"], "type of mcu")
        ctx.eq(prog.voltage, mcu["prog_voltage"], "voltage")
        ctx.eq(prog.datarate, mcu["prog_datarate"], "datarate")
        ctx.eq(prog.protocol, mcu["prog_protocol"], "protocol")
        ctx.eq(prog.simulate, False, "simulation")
    # emulation
    emu = tasks.emulation
    env = env_dict(cfg["env"])
    if cfg["env"] == "own":
        ctx.eq(emu.input_path.as_posix(), env["data_path"], "input")
    else:
        want = [e["data_path"] for e in gen.fixtures()["energyenvironment"] if str(e["name"]).lower() == env["name"].lower()]
        ctx.eq([emu.input_path.as_posix()], want, "input")
    ctx.eq(emu.output_path.parent.as_posix(), root, "folder of output")
    ctx.check(name in emu.output_path.name and emu.output_path.suffix == ".h5", "name of output")
    if xp["start"] is None:
        ctx.eq(emu.time_start, None, "start")
    else:
        ctx.eq(emu.time_start.timestamp(), instant(xp["start"]), "start")
        ctx.check(emu.time_start.tzinfo is not None, "start has no timezone")
    ctx.eq(emu.duration, None if xp["duration"] is None else timedelta(seconds=xp["duration"]), "duration")
    ctx.eq(emu.abort_on_error, xp["abort"], "abort on error")
    ctx.eq((emu.pwr_port, emu.io_port), (tgt["port"],) * 2, "ports")
    ctx.eq(emu.enable_io, TRACE_G[cfg["gpio"]] is not None, "io enabled")
    ctx.eq(emu.power_tracing, None if TRACE_P[cfg["power"]] is None else PowerTracing(**TRACE_P[cfg["power"]]), "power tracing")
    ctx.eq(emu.gpio_tracing, None if TRACE_G[cfg["gpio"]] is None else GpioTracing(**TRACE_G[cfg["gpio"]]), "gpio tracing")
    ctx.eq(emu.virtual_source.name.lower(), (VSRC[cfg["vsrc"]] or {"name": "neutral"})["name"].lower(), "virtual source")
    if cfg["vsrc"] == 2:
        ctx.eq(emu.virtual_source.V_output_mV, 1801, "setting of virtual source")
    log = xp["logging"] or {"dmesg": True, "ptp": True, "shepherd": True}
    ctx.eq({k: emu.sys_logging[k] for k in log}, log, "logging")


@facet(
    "P22",
    "derive",
    lambda: seeded(p22_gen),
    quick=260,
    thorough=8000,
    shards=4,
    rule="tasks derived from a valid experiment on a generated testbed hold exactly the settings of each target; non-trivial: 2+ targets or a target at port B or two firmwares",
    shrink=True,
)
def p22_derive(case, ctx):
    world, xp = case["world"], case["xp"]
    if not xp["configs"] or verdict(world, xp):
        return
    with active_world(world) as testbed, silence():
        model = Experiment(**xp_dict(xp))
        if case["via"] == "file":
            model = Experiment.from_file(model.to_file(ctx.tmp / "xp.yaml"))
        elif case["via"] == "dump":
            model = Experiment(**model.model_dump())
        now = time.time()
        tbt = TbTasks.from_xp(model, testbed) if case["tb"] == "given" else TbTasks.from_xp(model)
        order = [(cfg, pos) for cfg in xp["configs"] for pos in range(len(cfg["targets"]))]
        ctx.eq(len(tbt.observer_tasks), len(order), "number of observers")
        ctx.eq(tbt.name, xp["name"], "name")
        ctx.eq(tbt.email_results, xp["email"], "email")
        ctx.eq(tbt.owner_id, xp["owner"], "owner")
        known = known_targets(world)
        path = tbt.to_file(ctx.tmp / "tasks.yaml")
        outs = {}
        for cfg, pos in order:
            name = known[cfg["targets"][pos]][1]["name"]
            obt = tbt.get_observer_tasks(name)
            ctx.check(obt is not None, f"no tasks for {name}")
            check_tasks(ctx, obt, world, xp, cfg, pos, model, now)
            outs[name] = obt.emulation.output_path
            # what the observer extracts from the file
            wrap = prepare_task(path if pos % 2 else str(path), observer=name)
            ctx.eq(wrap.datatype, "ObserverTasks", "extracted type")
            ctx.eq(ObserverTasks(**wrap.parameters), obt, "tasks for observer in file")
            tasks = extract_tasks(wrap)
            want = [t for t in (obt.fw1_mod, obt.fw2_mod, obt.fw1_prog, obt.fw2_prog, obt.emulation) if t is not None]
            ctx.eq(tasks, want, "order of tasks")
            single = extract_tasks(prepare_task(tasks[-1]))
            ctx.eq(single, [tasks[-1]], "single task")
        ctx.eq(tbt.get_output_paths(), outs, "output paths")
        files = list(outs.values()) + [t.firmware_file for o in tbt.observer_tasks for t in (o.fw1_mod, o.fw2_mod) if t]
        ctx.eq(len({f.name for f in files}), len(files), "every file has its own name")
        foreign = {"sheep_zz", "sheep", "goat", "goat1001", *(n[:-1] for n in outs), *(n + "0" for n in outs), *(n.upper() for n in outs), *(o["name"] for o in world["observers"])}
        for name in sorted(foreign - set(outs)):
            ctx.eq(tbt.get_observer_tasks(name), None, f"tasks for foreign observer {name}")
            ctx.raises(lambda n=name: prepare_task(path, observer=n), f"foreign observer {name}", (ValueError,))
        if xp["start"] is not None:
            # a later run must not overwrite the previous one
            later = datetime.fromisoformat(xp["start"].replace("Z", "+00:00")) + timedelta(seconds=case["shift"])
            tbt2 = TbTasks.from_xp(Experiment(**{**xp_dict(xp), "time_start": later}), testbed)
            both = set(outs.values()) & set(tbt2.get_output_paths().values())
            ctx.check(not both, f"run that starts {case['shift']} s later writes to the same files {both}")
        wrap = prepare_task(path)
        ctx.raises(lambda: extract_tasks(wrap), "task-set", (ValueError,))
        ctx.eq(extract_tasks(wrap, no_task_sets=False), [tbt], "task-set from file")
        ctx.raises(lambda: prepare_task(3), "no task", (TypeError,))
        ctx.raises(lambda: extract_tasks(prepare_task(model)), "experiment is no task", (ValueError,))
    tgts = [known[c["targets"][p]][0] for c, p in order]
    ctx.label(f"targets={len(order)}", "port B" if any(t["port"] == "B" for t in tgts) else "port A")
    ctx.nontrivial(len(order) > 1 or any(t["port"] == "B" for t in tgts) or any(c["fw2"] for c in xp["configs"]))


# --------------------------------------------------------------------------- validation of tasks


ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0",
         "XXX-2YYY,0/0,J365/25", "CHAST-12:45CHADT,M9.5.0/2:45,M4.1.0/3:45"]


@contextmanager
def zone(name: str):
    old = os.environ.get("TZ")
    os.environ["TZ"] = name
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop("TZ")
        else:
            os.environ["TZ"] = old
        time.tzset()


def p23_time_gen(rng) -> dict:
    stamp = rng.choice([rng.uniform(0, 1.7e9), rng.uniform(4.0e9, 4.1e9), float(int(rng.uniform(4.0e9, 8e9)))])
    return {
        "task": rng.choice(["emu", "hrv"]),
        "zone": rng.choice(ZONES),
        "stamp": round(stamp, rng.choice([0, 3, 6])),
        "form": rng.choice(["int", "float", "naive", "aware", "text", "text_aware", "text_Z", "none"]),
        "offset_min": rng.choice([0, 60, -300, 345, 840, -720]),
        "nested": rng.random() < 0.3,
        # seconds before the moment of execution
        "near": rng.choice([None, None, 2, 5, 20, 50, 600, 5000, 80_000]),
    }


@facet(
    "P23",
    "start_time",
    lambda: seeded(p23_time_gen),
    quick=2000,
    thorough=20_000,
    shards=2,
    rule="start-times in all accepted notations and timezones: same instant with timezone, past is refused, input stays unaltered; non-trivial: a start-time is given",
)
def p23_start_time(case, ctx):
    cls = EmulationTask if case["task"] == "emu" else HarvestTask
    data: dict = {"input_path": "x.h5"} if case["task"] == "emu" else {"output_path": "x.h5"}
    with zone(case["zone"]), silence():
        stamp = case["stamp"]
        form = case["form"]
        if case["near"] is not None:
            stamp = time.time() - case["near"]
        tz = timezone(timedelta(minutes=case["offset_min"]))
        if form == "int":
            stamp = int(stamp)
            val = stamp
        elif form == "float":
            val = stamp
        else:
            val = datetime.fromtimestamp(stamp, tz=timezone.utc)
            stamp = val.timestamp()
            if form in {"naive", "text"}:
                val = val.astimezone().replace(tzinfo=None)
                stamp = val.astimezone().timestamp()  # ambiguous hours
            elif form in {"aware", "text_aware"}:
                val = val.astimezone(tz)
            if form.startswith("text"):
                val = val.isoformat()
            if form == "text_Z":
                val = val.replace("+00:00", "Z")
            if form == "none":
                val = None
        data["time_start"] = val
        before = dict(data)

        def build():
            if case["nested"] and cls is EmulationTask:
                outer = {"observer": "o", "owner_id": None, "time_prep": "2024-01-01", "root_path": "/a", "abort_on_error": False, "emulation": data}
                return ObserverTasks(**outer).emulation
            return cls.model_validate(data)

        if form != "none" and stamp < time.time():
            ctx.raises(build, "start in the past", (ValueError,))
        else:
            task = build()
            if form == "none":
                ctx.eq(task.time_start, None, "start")
            else:
                ctx.check(task.time_start.utcoffset() is not None, "start has no timezone")
                ctx.close(task.time_start.timestamp(), stamp, "start", rel=0, abs_=2e-6)
        ctx.eq(data, before, "given data was altered")
    ctx.label(form, "past" if stamp < time.time() else "future")
    ctx.nontrivial(form != "none")


@facet(
    "P23",
    "local_clock",
    lambda: st.fixed_dictionaries({"zone": st.sampled_from(ZONES)}),
    quick=24,
    thorough=24,
    shards=1,
    rule="local time follows the zone incl. daylight saving in both hemispheres; all cases count as non-trivial",
)
def p23_local(case, ctx):
    with zone(case["zone"]):
        for _ in range(2):
            ref = datetime.now().astimezone()
            now = local_now()
            if ref.utcoffset() == datetime.now().astimezone().utcoffset():
                break
        ctx.check(abs((now - ref).total_seconds()) < 5, "local_now() is another instant")
        ctx.eq(now.utcoffset(), ref.utcoffset(), "offset of local_now()")
        ctx.eq(local_tz().utcoffset(None), ref.utcoffset(), "offset of local_tz()")
    ctx.label(case["zone"])
    ctx.nontrivial(True)


PICK = [-1e6, -1, -1e-6, 0, 1e-6, 1, 4.5, 3600, 1e6]


def p23_rules_gen(rng) -> dict:
    kind = rng.choice(["emu", "hrv", "power", "gpio", "prog"])
    par: dict = {}

    def maybe(key, pool, p=0.4):
        if rng.random() < p:
            par[key] = rng.choice(pool)

    if kind in {"emu", "hrv"}:
        maybe("duration", [*PICK, None])
        maybe("output_compression", [None, "lzf", "1", 1, 2, "gzip", "", 0, True, "none", "9"])
        maybe("verbose", [0, 2, 4, 5, -1])
    if kind == "emu":
        maybe("voltage_aux", [0, 4.5, 4.51, -0.1, 3, "main", "buffer", "mid", "", "Main", 1e9])
        maybe("io_port", ["A", "B", "C", "a", 0])
        maybe("pwr_port", ["A", "B", "", "b"])
        maybe("gpio_actuation", [None, {"events": [{"delay": 1, "gpio": {"name": "GPIO0"}, "level": "H"}]}], 0.15)
    if kind == "power":
        for key in ("delay", "duration"):
            maybe(key, PICK)
        maybe("samplerate", [9, 10, 100_000, 100_001, 0, 500])
        maybe("discard_current", [True, False])
        maybe("discard_voltage", [True, False])
        maybe("calculate_power", [True, False], 0.2)
    if kind == "gpio":
        for key in ("delay", "duration"):
            maybe(key, PICK)
        maybe("mask", [0, 1, 1023, 1024, -1, 512])
        maybe("uart_baudrate", [2399, 2400, 115_200, 921_600, 921_601])
        maybe("gpios", [[], [{"name": "GPIO0"}], [{"name": "GPIO1"}] * 10, [{"name": "GPIO1"}] * 11, [{"name": "nope"}]])
    if kind == "prog":
        par = {"firmware_file": "a" + rng.choice([".hex", ".ihex", ".ihx", ".HEX", ".elf", ".bin", "", ".txt", ".hex.elf", ".elf.hex"]), "mcu_type": "nrf52", "protocol": rng.choice(["SWD", "SBW", "JTAG", "UART", "ISP"])}
        maybe("voltage", [0.99, 1, 3, 4.99, 5.01])
        maybe("datarate", [0, 1, 10**6, 10**6 + 1])
        maybe("mcu_port", [0, 1, 2, 3])
        maybe("target_port", ["A", "B", "C"])
    return {"kind": kind, "par": par}


def p23_valid(kind: str, par: dict) -> bool:
    def non_neg(key):
        return par.get(key) is None or par[key] >= 0

    ok = True
    if kind in {"emu", "hrv"}:
        comp = par.get("output_compression")
        ok = non_neg("duration") and (comp in {None, "lzf", "1"} or (comp == 1 and comp is not True))
        ok = ok and par.get("verbose", 2) in range(5)
    if kind == "emu":
        aux = par.get("voltage_aux", 0)
        ok = ok and (aux in {"main", "buffer"} if isinstance(aux, str) else 0 <= aux <= 4.5)
        ok = ok and par.get("io_port", "A") in {"A", "B"} and par.get("pwr_port", "A") in {"A", "B"}
        ok = ok and par.get("gpio_actuation") is None
    if kind == "power":
        ok = non_neg("delay") and non_neg("duration") and 10 <= par.get("samplerate", 10) <= 100_000
        ok = ok and not (par.get("discard_current") and par.get("discard_voltage")) and not par.get("calculate_power")
    if kind == "gpio":
        ok = non_neg("delay") and non_neg("duration") and 0 < par.get("mask", 1) < 1024
        ok = ok and 2400 <= par.get("uart_baudrate", 9600) <= 921_600
        pins = par.get("gpios")
        ok = ok and (pins is None or (1 <= len(pins) <= 10 and pins[0]["name"] != "nope"))
    if kind == "prog":
        suffix = par["firmware_file"][1:].lower()
        ok = suffix in {".hex", ".ihex", ".ihx", ".elf.hex"} and par["protocol"] != "ISP"
        ok = ok and 1 <= par.get("voltage", 3) <= 5 and 0 < par.get("datarate", 1) <= 10**6
        ok = ok and par.get("mcu_port", 1) in {1, 2} and par.get("target_port", "A") in {"A", "B"}
    return ok


@facet(
    "P23",
    "rules",
    lambda: seeded(p23_rules_gen),
    quick=4000,
    thorough=40_000,
    shards=2,
    rule="settings of tasks are accepted exactly within their documented limits and then hold the given values; non-trivial: at least one setting given",
)
def p23_rules(case, ctx):
    kind, par = case["kind"], copy.deepcopy(case["par"])
    cls = {"emu": EmulationTask, "hrv": HarvestTask, "power": PowerTracing, "gpio": GpioTracing, "prog": ProgrammingTask}[kind]
    if kind == "emu":
        par["input_path"] = "a.h5"
    if kind == "hrv":
        par["output_path"] = "a.h5"
    before = copy.deepcopy(par)
    comp = par.get("output_compression")
    unclear = comp is True or (isinstance(comp, str) and comp == "none")
    with silence():
        if p23_valid(kind, case["par"]):
            task = cls(**par)
            for key, val in case["par"].items():
                got = task[key]
                if key in {"duration", "delay"}:
                    ctx.eq(got, None if val is None else timedelta(seconds=val), key)
                elif key == "output_compression":
                    ctx.eq(got, None if val is None else str(val), key)
                elif key == "firmware_file":
                    ctx.eq(got.as_posix(), val, key)
                elif key == "gpios":
                    ctx.eq([g.name for g in got], [g["name"] for g in val], key)
                elif key != "gpio_actuation":
                    ctx.eq(got, val, key)
            ctx.label(kind, "valid")
        else:
            if not unclear:
                ctx.raises(lambda: cls(**par), f"{kind} with {case['par']}", (ValueError, NotImplementedError))
            ctx.label(kind, "refused")
        ctx.eq(par, before, "given data was altered")
    ctx.nontrivial(bool(case["par"]))


def event_st():
    pins = [g["name"] for g in gen.fixtures()["gpio"]]
    return st.fixed_dictionaries(
        {
            "gpio": st.sampled_from(pins),
            "delay": st.one_of(log_floats(-5, 4), st.sampled_from([0.1, 0.2, 0.3, 1.0, 1.1, 1e-5])),
            "period": st.one_of(st.none(), log_floats(-4.9, 3), st.sampled_from([0.1, 0.2, 0.3, 1e-5, 0.7])),
            "count": st.one_of(st.none(), st.integers(1, 40), st.integers(1, 4096)),
            "level": st.sampled_from("LHX"),
        }
    )


@facet(
    "P23",
    "gpio_events",
    lambda: st.lists(event_st(), min_size=1, max_size=6),
    quick=500,
    thorough=20_000,
    shards=2,
    rule="actuation of gpio: only pins open to users, exact number & position of periodic events; non-trivial: an event repeats",
)
def p23_events(case, ctx):
    table = {g["name"]: g for g in gen.fixtures()["gpio"]}
    good = []
    for item in case:
        par = {k: v for k, v in item.items() if v is not None}
        par["gpio"] = {"name": item["gpio"]}
        pin = table[item["gpio"]]
        allowed = item["gpio"].startswith("GPIO") and pin.get("direction", "IN") in {"OUT", "IO"}
        ctx.eq(GPIO(name=item["gpio"]).user_controllable(), allowed, "user can control pin")
        if not allowed:
            ctx.raises(lambda par=par: GpioEvent(**par), f"event on {item['gpio']}", (ValueError,))
            continue
        event = GpioEvent(**par)
        good.append(event)
        count, period = par.get("count", 1), par.get("period", 1)
        times = event.get_events()
        ctx.eq(len(times), count, "number of events")
        want = item["delay"] + period * np.arange(count)
        ctx.check(bool(np.allclose(times, want, rtol=1e-9, atol=1e-9)), "position of events")
    if good:
        pins = GpioActuation(events=good).get_gpios()
        ctx.eq({p.name for p in pins}, {e.gpio.name for e in good}, "pins in use")
        ctx.eq(len(pins), len({e.gpio.name for e in good}), "pins are listed once")
    ctx.label("accepted" if good else "refused")
    ctx.nontrivial(any(e.count > 1 for e in good))


# --------------------------------------------------------------------------- testbed


def p24_gen(rng) -> dict:
    world = world_gen(rng, ideal=0.4)
    dup = rng.choice([None, None, "id", "ip", "mac", "eth_port", "cape", "target", "target_self", "prep", "storage", "no_cape", "no_obs"])
    return {"world": world, "dup": dup, "vary": rng.random() < 0.5, "a": rng.randrange(6), "b": rng.randrange(6), "created": rng.random() < 0.5}


@facet(
    "P24",
    "testbed_rules",
    lambda: seeded(p24_gen),
    quick=2500,
    thorough=20_000,
    shards=2,
    rule="testbed is accepted exactly if nothing is used twice and queries for targets find active setups only; non-trivial: at least one target or a rule is broken",
    shrink=True,
)
def p24_testbed(case, ctx):
    world = case["world"]
    if not world["observers"]:
        return
    data = world_dict(world)
    data["id"], data["name"] = 50_005, "own"
    obs = data["observers"]
    if not case["created"]:
        for item in obs:
            for key in ("cape", "target_a", "target_b"):
                if item.get(key):
                    item[key].pop("created")
    src, dst = obs[case["a"] % len(obs)], obs[case["b"] % len(obs)]
    dup, broken = case["dup"], False
    vary = {"comment": "other"} if case["vary"] else {}
    fill = {"id": 71_000_000, "name": "c", "version": "1", "description": "d"}
    if dup in {"id", "ip", "mac", "eth_port"} and src is not dst:
        dst[dup] = src[dup]
        dst["room"] = "other" if case["vary"] else "r"
        broken = True
    elif dup == "cape" and src is not dst:
        src["cape"] = src["cape"] or fill
        dst["cape"] = {**copy.deepcopy(src["cape"]), **vary}
        broken = True
    elif dup in {"target", "target_self"}:
        have = [src[k] for k in ("target_a", "target_b") if src.get(k)]
        if dup == "target_self":
            dst = src
        key = "target_b" if have and src.get("target_a") is have[0] else "target_a"
        if have and (dst is not src or key == "target_b"):
            dst[key] = {**copy.deepcopy(have[0]), **vary}
            dst["cape"] = dst["cape"] or fill
            broken = True
    elif dup == "prep":
        data["prep_duration"], broken = -1, True
    elif dup == "storage":
        data["shared_storage"], broken = False, True
    elif dup == "no_obs":
        data["observers"], broken = [], True
    elif dup == "no_cape":
        broken = any(src.get(k) for k in ("target_a", "target_b"))
        src["cape"] = None
        if broken:
            ctx.raises(lambda: Observer(**src), "targets without cape", (ValueError,))
    with silence():
        if broken:
            ctx.raises(lambda: TbModel(**data), f"testbed with faulty '{dup}'", (ValueError,))
            ctx.label(f"refused {dup}")
            ctx.nontrivial(True)
            return
        model = TbModel(**data)
        known = known_targets(world)
        for tid, (tgt, host) in known.items():
            ob = next(o for o in model.observers if o.id == host["id"])
            ctx.eq(ob.has_target(tid), tgt["active"], f"target {tid} on observer")
            if tgt["active"]:
                ctx.eq(ob.get_target_port(tid), tgt["port"], "port")
                ctx.eq(ob.get_target(tid).id, tid, "id of target")
                ctx.eq(ob.get_target(tid).testbed_id, node_id(tgt), "node-id")
            else:
                ctx.raises(lambda ob=ob, tid=tid: ob.get_target_port(tid), "port of inactive target", (KeyError, ValueError))
                ctx.raises(lambda ob=ob, tid=tid: ob.get_target(tid), "inactive target", (KeyError, ValueError))
            for other in model.observers:
                if other.id != host["id"]:
                    ctx.eq(other.has_target(tid), False, "target on foreign observer")
            if usable(tgt, host):
                ctx.eq(model.get_observer(tid).name, host["name"], "observer of target")
            else:
                ctx.raises(lambda tid=tid: model.get_observer(tid), "observer of unusable target", (ValueError,))
        ctx.raises(lambda: model.get_observer(99_999_999), "observer of unknown target", (ValueError,))
        ctx.raises(lambda: model.observers[0].get_target(99_999_999), "unknown target", (KeyError, ValueError))
    ctx.label("valid", f"targets={len(known)}")
    ctx.nontrivial(bool(known))


@facet(
    "P24",
    "target_defaults",
    lambda: st.fixed_dictionaries(
        {
            "id": st.one_of(st.integers(30_000_000, 2**64), st.integers(0, 2**40).map(lambda x: 30_000_000 + x * 2**16)),
            "testbed_id": st.one_of(st.none(), st.integers(-2, 2**16 + 2)),
            "mcu1": st.sampled_from(["nRF52", "msp430FR", {"name": "nRF52"}, {"id": 1002}, "unknown"]),
            "mcu2": st.sampled_from([None, "nRF52", {"name": "MSP430FR"}, {"id": 1}]),
            "drop": st.sampled_from([None, None, None, None, "id", "name", "mcu1"]),
            "lat": floats(-200, 200),
        }
    ),
    quick=400,
    thorough=5000,
    shards=1,
    rule="node-id derives from the id of the target, controllers resolve by name or id, incomplete descriptions are refused; all cases count as non-trivial",
)
def p24_target(case, ctx):
    par = {"id": case["id"], "name": "tgt_x", "version": "1", "description": "d", "mcu1": case["mcu1"], "mcu2": case["mcu2"]}
    if case["testbed_id"] is not None:
        par["testbed_id"] = case["testbed_id"]
    if case["drop"]:
        par.pop(case["drop"])
    valid = case["drop"] is None and case["mcu1"] != "unknown" and case["mcu2"] != {"id": 1}
    valid = valid and 0 <= (case["testbed_id"] or 0) < 2**16
    with silence():
        if valid:
            tgt = Target(**par)
            ctx.eq(tgt.testbed_id, case["id"] % 2**16 if case["testbed_id"] is None else case["testbed_id"], "node-id")
            names = {"nRF52": 1001, "msp430FR": 1002, "MSP430FR": 1002}
            for key in ("mcu1", "mcu2"):
                ref = case[key]
                want = None if ref is None else names[ref] if isinstance(ref, str) else ref.get("id", names.get(ref.get("name")))
                ctx.eq(tgt[key] and tgt[key].id, want, key)
        else:
            ctx.raises(lambda: Target(**par), f"target without {case['drop']}", (ValueError,))
        geo = {"id": 61_000_000, "name": "o", "description": "d", "ip": "1.2.3.4", "mac": "00:00:00:00:00:01", "room": "r", "eth_port": "e", "latitude": case["lat"], "longitude": case["lat"]}
        if abs(case["lat"]) <= 90:
            ctx.eq(Observer(**geo).latitude, case["lat"], "latitude")
        else:
            ctx.raises(lambda: Observer(**geo), "latitude", (ValueError,))
    ctx.label("valid" if valid else "refused")
    ctx.nontrivial(True)



