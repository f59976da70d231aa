"""P29-P30: web-client, users and inventories."""

from __future__ import annotations

import copy
import importlib
import json
import sys
import threading
from contextlib import contextmanager
from datetime import datetime
from datetime import timedelta
from datetime import timezone
from http.server import BaseHTTPRequestHandler
from http.server import ThreadingHTTPServer
from urllib.parse import parse_qs
from urllib.parse import urlparse


from checks.models import build
from checks.models import case_st
from checks.models import plain
from harness.core import facet
from harness.util import seeded
from harness.util import silence
from shepherd_core.data_models.base.wrapper import Wrapper
from shepherd_core.inventory import Inventory
from shepherd_core.inventory import InventoryList
from shepherd_core.testbed_client import client_abc_fix
from shepherd_core.testbed_client import tb_client
from shepherd_core.testbed_client.client_web import WebClient
from shepherd_core.testbed_client.user_model import User
from shepherd_core.testbed_client.user_model import hash_password

# --------------------------------------------------------------------------- P29


@contextmanager
def server(plan: dict):
    """Loopback testbed-server which records all requests."""
    log: list = []

    class Handler(BaseHTTPRequestHandler):
        def log_message(self, *args) -> None:  # quiet
            pass

        def answer(self, key: str, body: dict) -> None:
            code = plan["status"].get(key, 200)
            data = json.dumps(body).encode()
            self.send_response(code)
            self.send_header("Content-Type", "application/json")
            self.send_header("Content-Length", str(len(data)))
            self.end_headers()
            self.wfile.write(data)

        def do_GET(self) -> None:  # noqa: N802
            url = urlparse(self.path)
            log.append(("GET", url.path, parse_qs(url.query, keep_blank_values=True), None))
            if url.path.endswith("/session_key"):
                self.answer("session_key", {"value": "key_123"})
            elif url.path.endswith("/user"):
                self.answer("user", plan["user"])
            else:
                self.send_error(404)

        def do_POST(self) -> None:  # noqa: N802
            body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
            log.append(("POST", urlparse(self.path).path, {}, body.decode()))
            self.answer("add", {})

    srv = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    thread = threading.Thread(target=srv.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True)
    thread.start()
    keep = client_abc_fix.tb_client
    try:
        yield f"http://127.0.0.1:{srv.server_address[1]}{plan['base']}", log
    finally:
        client_abc_fix.tb_client = keep
        srv.shutdown()
        srv.server_close()
        thread.join()


TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"


def connect_gen(rng) -> dict:
    return {
        "base": rng.choice(["", "/testbed", "/api/v1"]),
        "status": rng.choice([{}, {}, {}, {"session_key": 500}, {"session_key": 404}, {"user": 401}, {"user": 503}]),
        "user": {
            "id": rng.randrange(2**31),
            "name": rng.choice(["tester", "Jane Doe", "x"]),
            "group": rng.choice(["nes lab", "unknown2", "g"]),
            "email": "a@tu-dresden.de",
            "token": "".join(rng.choice(TOKEN) for _ in range(30)),
        },
        "token": rng.choice(["none", "text", "text", "file", "file_nl", "file_crlf", "missing"]),
        "value": "".join(rng.choice(TOKEN) for _ in range(rng.choice([1, 20, 128]))),
        "owner": rng.choice([None, "somebody", "absent"]),
        "group": rng.choice([None, "others", "absent"]),
        "down": rng.random() < 0.08,
        "add_status": rng.choice([200, 200, 400, 500]),
    }


@facet("P29", "connect", seeded(connect_gen), quick=160, thorough=3000,
       rule="an own token was presented to a working server")
def run_connect(case, ctx) -> None:
    if case["token"].startswith("file"):
        path = ctx.tmp / "token.txt"
        path.write_bytes((case["value"] + {"file_nl": "\n", "file_crlf": "\r\n"}.get(case["token"], "")).encode())
        token = path
    else:
        token = {"none": None, "missing": ctx.tmp / "nope"}.get(case["token"], case["value"])
    with server(case) as (url, log):
        use = url if not case["down"] else "http://127.0.0.1:9/testbed"
        if case["down"] or case["status"] or case["token"] == "missing":
            ctx.label("refused")
            ctx.raises(lambda: WebClient(server=use, token=token), f"connection with {case['status']}, token {token}")
            return
        client = WebClient(server=use, token=token)
        ctx.check(all(entry[1].startswith(case["base"] + "/") for entry in log), f"paths {log}")
        users = [entry for entry in log if entry[1].endswith("/user")]
        ctx.eq(len(users), 1, "queries for the user")
        sent = users[0][2].get("token")
        ctx.check(sent is not None and len(sent) == 1, f"query {users[0]}")
        if case["token"] == "none":
            ctx.check(len(sent[0]) > 0 and sent[0] != case["value"], "token for public access")
        else:
            ctx.nontrivial()
            ctx.eq(sent[0], case["value"], "presented token")
        ctx.label(case["token"])
        values = {"name": "x", "deep": {"a": [1]}}
        for key in ("owner", "group"):
            if case[key] != "absent":
                values[key] = case[key]
        want = copy.deepcopy(values)
        for key, own in (("owner", case["user"]["name"]), ("group", case["user"]["group"])):
            if case[key] in (None, "absent"):
                want[key] = own
        absent = copy.deepcopy(values)
        ctx.eq(client.fill_in_user_data(values), want, "data of user")
        # without server there is no account, given data is still kept
        offline = tb_client.fill_in_user_data(absent)
        ctx.eq(
            offline,
            {**want, **{key: "unknown" for key in ("owner", "group") if case[key] in (None, "absent")}},
            "data of user when offline",
        )
        # failing requests are reported
        case["status"]["add"] = case["add_status"]
        user = User(name="u", group="g", email="a@b.de", token="secret_token")
        try:
            if case["add_status"] == 200:
                ctx.check(client.insert(user), "result of insert")
            else:
                ctx.raises(lambda: client.insert(user), f"insert with status {case['add_status']}")
        finally:
            case["status"].pop("add")


PLAN = {
    "base": "/testbed",
    "status": {},
    "user": {"id": 1, "name": "tester", "group": "lab", "email": "a@tu-dresden.de", "token": "abc"},
}


@facet("P29", "transmit", lambda: case_st(), quick=160, thorough=4000, shards=2,
       rule="generated instances of all model-classes are inserted over a loopback server; the transmitted "
       "text has to rebuild the same instance; non-trivial: at least 4 parameters were given")
def run_transmit(case, ctx) -> None:
    cls, model = build(case)
    before = plain(model.model_dump())
    with server(copy.deepcopy(PLAN)) as (url, log):
        client = WebClient(server=url, token="abc")
        for _ in range(2):
            log.clear()
            ctx.check(client.insert(model) is True, "result of insert")
            ctx.eq([(e[0], e[1]) for e in log], [("POST", "/testbed/add")], "requests")
            wrap = Wrapper(**json.loads(log[0][3]))
            ctx.eq(wrap.datatype, case["model"], "datatype")
            with silence():
                again = cls(**copy.deepcopy(wrap.parameters))
            ctx.eq(plain(again.model_dump()), before, "instance on the other side")
            ctx.eq(again.get_hash(), model.get_hash(), "hash on the other side")
        ctx.eq(plain(model.model_dump()), before, "instance after insertion")
    ctx.label(case["model"])
    ctx.nontrivial(len(case["kwargs"]) >= 4)


SECRET = "abcdefghijkmnopqrstuvwxyz0123456789_-!"


def user_gen(rng) -> dict:
    word = lambda n: "".join(rng.choice(SECRET) for _ in range(n))  # noqa: E731
    return {
        "name": rng.choice(["tester", "Jane Doe", "x-1"]),
        "group": rng.choice(["nes lab", "g"]),
        "email": rng.choice(["a@b.de", "jane.doe@tu-dresden.de", "x+y@mail.example.org"]),
        "token": rng.choice([None, None, "absent", "TK" + word(5), "TK" + word(18), "TK" + word(60)]),
        "pw": rng.choice([None, "PW" + word(rng.randrange(10, 40))]),
        "id": rng.choice(["auto", "auto", rng.randrange(2**40)]),
        "active": rng.choice([None, True, False]),
        "bad": rng.choice(["no-at", "a@", "@b.de", "a b@c.de", "", "a@b@c.de", None]),
        "hash": rng.random() < 0.012,
        "len": rng.choice([0, 1, 19, 101, 300]),
        "ok": rng.choice([20, 21, 99, 100]),
        "twist": [rng.choice([0, rng.randrange(20), -1, -1]), *rng.sample(["B", "b", " ", "ä", "ö", "€", "?"], 2)],
    }


@facet("P29", "users", seeded(user_gen), quick=250, thorough=5000,
       rule="generated accounts: generated tokens are long and never repeat, secrets never appear in printed "
       "instances, invalid mail-addresses are refused, passwords are hashed; non-trivial: own token or password")
def run_users(case, ctx) -> None:
    args = {"name": case["name"], "group": case["group"], "email": case["email"]}
    if case["token"] != "absent":
        args["token"] = case["token"]
    if case["pw"] is not None:
        args["pw_hash"] = case["pw"].encode()
    if case["id"] != "auto":
        args["id"] = case["id"]
    if case["active"] is not None:
        args["active"] = case["active"]
    user, other = User(**copy.deepcopy(args)), User(**copy.deepcopy(args))
    ctx.eq(user.active, bool(case["active"]), "activation")
    for key in ("name", "group", "email"):
        ctx.eq(getattr(user, key), args[key], key)
    token = user.token.get_secret_value()
    own = case["token"] not in (None, "absent")
    if own:
        ctx.eq(token, case["token"], "token")
        ctx.eq(other.token.get_secret_value(), token, "token of twin")
    else:
        ctx.check(len(token) >= 128, f"generated token has only {len(token)} chars")
        ctx.check(other.token.get_secret_value() != token, "generated token repeats")
        ctx.check(len(set(token)) > 20, f"token {token} is not random")
    if case["id"] == "auto":
        ctx.check(user.id != other.id, "generated id repeats")
    else:
        ctx.eq(user.id, case["id"], "id")
    texts = [str(user), repr(user), str(user.model_dump()), user.model_dump_json(), f"{user.token}", f"{user.pw_hash}"]
    for text in texts:
        ctx.check(token not in text, f"token is visible in {text}")
        if case["pw"] is not None:
            ctx.check(case["pw"] not in text, f"password is visible in {text}")
    if case["pw"] is not None:
        ctx.eq(user.pw_hash.get_secret_value(), case["pw"].encode(), "hash")
    if case["bad"] is not None:
        ctx.raises(lambda: User(**{**args, "email": case["bad"]}), f"user with mail '{case['bad']}'", (ValueError,))
    for key in ("name", "group", "email"):
        rest = {k: v for k, v in args.items() if k != key}
        ctx.raises(lambda rest=rest: User(**rest), f"user without {key}", (ValueError,))
    ctx.raises(lambda: hash_password("x" * case["len"]), f"password of {case['len']} chars", (ValueError,))
    if case["hash"]:
        word = "ab1" * 34
        word = word[: case["ok"]]
        first = hash_password(word)
        ctx.eq(len(first), 128, "size of hash")
        ctx.check(word.encode() not in first, "hash contains the password")
        ctx.eq(hash_password(word), first, "hash of same password")
        pos, one, two = case["twist"]
        pos %= len(word)
        one, two = (word[:pos] + char + word[pos + 1 :] for char in (one, two))
        ctx.check(hash_password(one) != hash_password(two), f"different passwords {one!r} and {two!r} share their hash")
        ctx.label("hashed")
    ctx.nontrivial(own or case["pw"] is not None)


# --------------------------------------------------------------------------- P30

VERSIONS = ["h5py", "numpy", "pydantic", "python", "shepherd_core", "shepherd_sheep", "yaml", "zstandard"]
BASE = datetime(2024, 3, 1, 12, 0, 0, tzinfo=timezone.utc)


def inv_gen(rng) -> dict:
    hosts = []
    spread = rng.choice([0, 5, 9.9, 10.1, 11, 60, 3600])
    fixed = {name: rng.choice([None, "1.0.0", "2.1.3", "2024.10.1"]) for name in VERSIONS}
    odd = rng.choice([0, 0, 0.15, 0.5])
    n = rng.choice([1, 1, 2, 3, 5, 8])
    for i in range(n):
        vers = {k: (rng.choice([None, "1.0.0", "1.0.1", "2.1.3", "2024.10.1", "2024.10.12", "2024.10.1.dev1+g12"]) if rng.random() < odd else v) for k, v in fixed.items()}
        hosts.append(
            {
                "hostname": f"sheep{i:02}",
                "created": rng.choice([0, 0, spread, round(spread / 2, 3)]),
                "zone": rng.choice([0, 0, 60, -330]),
                "uptime": rng.choice([0, 1, 3600, 30 * 3600, 30 * 3600 + 1, 10**7]),
                "versions": {k: v for k, v in vers.items() if v is not None},
                "interfaces": rng.choice([{}, {"eth0": ["10.0.0.1", "aa:bb:cc:dd:ee:ff"]}, {"lo": [], "eth0": ["a", "b"]}]),
                "fs_root": rng.choice(["absent", [], ["/dev/sda 10G"], ["a", "b"]]),
                "targets": rng.choice(["absent", [], ["nRF52"], ["nRF52", "MSP430"]]),
                "cape": rng.choice([None, "1.2", "cape 3"]),
                "ptp": rng.choice(["absent", None, "3.1"]),
            }
        )
    rng.shuffle(hosts)
    return {"hosts": hosts, "sub": rng.choice(["dir", "x.csv", "deep.name.csv"]), "file": rng.choice(["a", "b.yaml"])}


def inventory(host: dict) -> Inventory:
    created = (BASE + timedelta(seconds=host["created"])).astimezone(timezone(timedelta(minutes=host["zone"])))
    args = {
        "hostname": host["hostname"],
        "created": created,
        "timestamp": created,
        "uptime": host["uptime"],
        "system": "Linux",
        "release": "6.1",
        "version": "1",
        "machine": "armv7l",
        "processor": "",
        "interfaces": host["interfaces"],
        **host["versions"],
    }
    for key in ("fs_root", "targets", "ptp"):
        if host[key] != "absent":
            args[key] = host[key]
    if host["cape"] is not None:
        args["cape"] = host["cape"]
    return Inventory(**copy.deepcopy(args))


def mentioned(text: str, hosts: list) -> set:
    return {h["hostname"] for h in hosts if h["hostname"] in text}


@facet("P30", "warnings", seeded(inv_gen), quick=600, thorough=15000,
       rule="lists of generated inventories: warnings against own calculation for every host, csv with one row "
       "per host, file round-trip; non-trivial: more than one host and at least one expected warning")
def run_warnings(case, ctx) -> None:
    hosts = case["hosts"]
    invs = InventoryList(elements=[inventory(h) for h in hosts])
    dump = plain(invs.model_dump())
    warns = invs.warn()
    early = min(h["created"] for h in hosts)
    up = {h["hostname"] for h in hosts if h["uptime"] > 30 * 3600}
    late = {h["hostname"] for h in hosts if h["created"] - early > 10}
    want = {}
    if up:
        want["uptime"] = up
    if late:
        want["time_delta"] = late
    for key in VERSIONS:
        seen = {h["versions"][key] for h in hosts if key in h["versions"]}
        if len(seen) > 1:
            want[key] = {h["hostname"] for h in hosts if key in h["versions"]}
    ctx.eq(set(warns), set(want), "kinds of warnings")
    for key, names in want.items():
        ctx.eq(mentioned(str(warns[key]), hosts), names, f"hosts in warning '{key}'")
    ctx.eq(invs.warn(), warns, "second evaluation")
    # table
    path = ctx.tmp / case["sub"]
    if case["sub"] == "dir":
        path.mkdir()
    invs.to_csv(path)
    if path.is_dir():
        content = list(path.iterdir())
        ctx.eq(len(content), 1, "files in folder")
        path = content[0]
    lines = path.read_text().split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    lines = [x for x in (y.strip("\r") for y in lines) if x]
    ctx.eq(len(lines), len(hosts) + 1, "rows in table")
    ctx.eq(set(lines[0].split(", ")), set(type(invs.elements[0]).model_fields), "columns")
    for line, host in zip(lines[1:], hosts):
        ctx.eq(mentioned(line, hosts), {host["hostname"]}, "host in row")
        parts = line.split(", ")
        for val in (host["uptime"], "armv7l", "6.1", host["cape"], *host["versions"].values()):
            ctx.check(val is None or str(val) in parts, f"{val} missing in row {line}")
    # file
    dest = invs.to_file(ctx.tmp / case["file"], minimal=False)
    with silence():
        again = InventoryList.from_file(dest)
    ctx.eq(plain(again.model_dump()), plain(invs.model_dump()), "loaded list")
    ctx.eq(again.warn(), warns, "warnings of loaded list")
    ctx.eq(plain(invs.model_dump()), dump, "list after usage")
    ctx.nontrivial(len(hosts) > 1 and len(want) > 0)
    for key in want:
        ctx.label(key)


def collect_gen(rng) -> dict:
    return {
        "psutil": rng.choice(["missing", "fresh", "fake", "fake"]),
        "boot": rng.choice([0.2, 1, 59.4, 3600, 30 * 3600 + 5, 10**7]),
        "ifs": rng.choice([{}, {"lo": 1}, {"lo": 2, "eth0": 2}, {"eth0": 3, "usb0": 1, "wifi": 2}]),
        "count": rng.choice([1, 2, 4]),
        "tools": rng.choice(["real", "real", "failing"]),
    }


class Address:
    def __init__(self, value: str) -> None:
        self.address = value


@facet("P30", "collect", seeded(collect_gen), quick=60, thorough=600,
       rule="inventories of this machine are collected with and without the optional library; non-trivial: "
       "several interfaces or a missing library")
def run_collect(case, ctx) -> None:
    import platform
    import subprocess
    import time

    import numpy as np

    module = importlib.import_module("shepherd_core.inventory.system")
    keep = sys.modules.get("psutil", "absent")
    t0 = time.time()
    want_up = 0
    real_run = subprocess.run
    try:
        if case["tools"] == "failing":  # external tools exist, but report an error
            subprocess.run = lambda cmd, *args, **kwargs: real_run(["false"], *args, **kwargs)
        if case["psutil"] == "missing":
            sys.modules["psutil"] = None  # import fails
        else:
            fake = type(sys)("psutil")
            age = 0.01 if case["psutil"] == "fresh" else case["boot"]
            want_up = age
            fake.boot_time = lambda: time.time() - age
            fake.net_if_addrs = lambda: {
                name: [Address(f"{name}_{i}") for i in range(n)] for name, n in case["ifs"].items()
            }
            sys.modules["psutil"] = fake
        with silence():
            importlib.reload(module)
            sysi = module.SystemInventory.collect()
            ctx.check(abs(sysi.uptime - want_up) <= 1.0, f"uptime {sysi.uptime} vs {want_up}")
            if case["psutil"] != "missing":
                # a second look sees the changes in between
                fake.net_if_addrs = lambda: {"new0": [Address("x"), Address("y")]}
                ctx.eq({k: set(map(str, v)) for k, v in module.SystemInventory.collect().interfaces.items()}, {"new0": {"x", "y"}},
                       "interfaces after a change")
                fake.net_if_addrs = lambda: {
                    name: [Address(f"{name}_{i}") for i in range(n)] for name, n in case["ifs"].items()
                }
            # the overview uses the original class
            pkg = importlib.import_module("shepherd_core.inventory")
            invs = []
            orig = pkg.SystemInventory
            try:
                pkg.SystemInventory = module.SystemInventory
                invs.extend(Inventory.collect() for _ in range(case["count"]))
            finally:
                pkg.SystemInventory = orig
        ctx.eq(sysi.hostname, platform.node(), "hostname")
        t1 = time.time()
        for inv in invs:
            ctx.eq(inv.hostname, platform.node(), "hostname")
            ctx.check(t0 - 1 <= inv.created.timestamp() <= t1 + 1, f"creation {inv.created}")
            ctx.eq(inv.created, inv.timestamp, "timestamp")
            ctx.check(abs(inv.uptime - want_up) <= 1.0, f"uptime {inv.uptime} vs {want_up}")
            ctx.eq(inv.numpy, np.__version__, "version of numpy")
            ctx.eq(inv.python, platform.python_version(), "version of python")
            if case["psutil"] == "missing":
                ctx.eq(inv.interfaces, {}, "interfaces")
            else:
                ctx.eq(set(inv.interfaces), {k for k, n in case["ifs"].items() if n > 1}, "interfaces")
                for name, addr in inv.interfaces.items():
                    ctx.check(
                        case["ifs"][name] != 2 or {f"{name}_0", f"{name}_1"} <= set(map(str, addr)),
                        f"addresses of {name}: {addr}",
                    )
        warns = InventoryList(elements=invs).warn()
        ctx.eq(set(warns), {"uptime"} if want_up > 30 * 3600 else set(), "warnings for identical hosts")
    finally:
        subprocess.run = real_run
        if keep == "absent":
            sys.modules.pop("psutil", None)
        else:
            sys.modules["psutil"] = keep
        with silence():
            importlib.reload(module)
    ctx.label(case["psutil"])
    ctx.nontrivial(case["psutil"] == "missing" or len(case["ifs"]) > 1)
