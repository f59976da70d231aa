"""P11-P12: model files, strictness, hashes; fixture database & inheritance."""

from __future__ import annotations

import copy
import json

import yaml
from hypothesis import strategies as st

from harness import models as gen
from harness.core import facet
from harness.util import silence
from shepherd_core.data_models import Wrapper
from shepherd_core.testbed_client.fixtures import Fixtures

AUTO = {"id", "created", "updated_last"}


def plain(obj):
    """model_dump() in comparable form"""
    if isinstance(obj, dict):
        return {str(k): plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    if hasattr(obj, "as_posix"):
        return obj.as_posix()
    return obj


def strip_auto(dump: dict, full: dict, model) -> tuple[dict, dict]:
    """Remove generated defaults (id, dates) that a minimal file does not contain."""
    for key in list(dump):
        if key in AUTO and key not in model.model_fields_set:
            dump.pop(key)
            full.pop(key, None)
            continue
        sub = getattr(model, key, None)
        if hasattr(sub, "model_fields_set"):
            strip_auto(dump[key], full.get(key, {}), sub)
        elif isinstance(sub, list):
            for a, b, m in zip(dump[key], full.get(key, []), sub):
                if hasattr(m, "model_fields_set"):
                    strip_auto(a, b, m)
    return dump, full


def case_st(names=None):
    table = gen.by_name()
    return st.sampled_from(sorted(names or table)).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "model": st.just(n),
                "kwargs": table[n],
                "minimal": st.booleans(),
                "comment": st.one_of(st.none(), gen.safe_st()),
                "sub": st.sampled_from(["", "new/deep/"]),
                "file": st.sampled_from(["a", "a.yaml", "b.yml", "c.txt"]),
                # size of a file that already exists at the destination
                "old": st.sampled_from([0, 0, 50, 5000]),
            }
        )
    )


def pair_st() -> st.SearchStrategy:
    """Model with alternative parameters"""
    table = gen.by_name()
    return case_st().flatmap(lambda c: table[c["model"]].map(lambda alt: {**c, "alt": alt}))


def build(case):
    cls = gen.classes()[case["model"]]
    with silence():
        return cls, cls(**copy.deepcopy(case["kwargs"]))


@facet(
    "P11",
    "roundtrip",
    lambda: case_st(),
    quick=1200,
    thorough=40000,
    shards=4,
    rule="generated instances of 25 model classes (nested, custom and fixture-based) are stored and loaded "
    "again: all values, the hash and the reported path have to agree, other classes refuse the file; "
    "non-trivial: at least 4 parameters were given",
)
def p11_roundtrip(case, ctx):
    cls, model = build(case)
    ctx.label(case["model"])
    dump = plain(model.model_dump())
    hash_1 = model.get_hash()
    ctx.eq(model.get_hash(), hash_1, "second hash of the same instance")
    dest = ctx.tmp / (case["sub"] + case["file"])
    if case.get("old"):
        dest.parent.mkdir(parents=True, exist_ok=True)
        dest.with_suffix(".yaml").write_text("name: previous content\n" * (case["old"] // 20))
    path = model.to_file(dest, comment=case["comment"], minimal=case["minimal"])
    ctx.check(path.is_file() and path.suffix == ".yaml", f"stored file {path} is missing")
    ctx.eq(path, dest.with_suffix(".yaml").resolve(), "path of stored file")
    ctx.eq(plain(model.model_dump()), dump, "model after storing")
    ctx.eq(model.get_hash(), hash_1, "hash after storing")
    raw = yaml.safe_load(path.read_text())
    ctx.eq(raw.get("datatype"), case["model"], "datatype in file")
    if case["comment"]:
        ctx.eq(raw.get("comment"), case["comment"], "comment in file")
    with silence():
        loaded = cls.from_file(path)
    ctx.check(type(loaded) is cls, f"loaded type {type(loaded)}")
    dump2 = plain(loaded.model_dump())
    if case["minimal"]:
        dump, dump2 = strip_auto(dump, dump2, model)
        ctx.eq(dump2, dump, "loaded model")
    else:
        ctx.eq(dump2, dump, "loaded model")
        ctx.check(loaded == model, "loaded instance is not equal to the original")
        ctx.eq(loaded.get_hash(), hash_1, "hash of loaded model")
        # second generation is stable
        path2 = loaded.to_file(ctx.tmp / "second.yaml", minimal=False)
        ctx.eq(yaml.safe_load(path2.read_text())["parameters"], raw["parameters"], "second generation")
    # other types have to refuse that file
    for other in ("SystemLogging", "CalibrationPair"):
        if other != case["model"]:
            oth = gen.classes()[other]
            ctx.raises(lambda: oth.from_file(path), f"{case['model']}-file loaded as {other}", (ValueError,))
    # similar names are still other types
    name = case["model"]
    for idx, similar in enumerate(sorted({name[1:], name[:-1], name + "X", "X" + name, name.lower(), name.upper()} - {name})):
        path3 = ctx.tmp / f"similar{idx}.yaml"
        path3.write_text(yaml.safe_dump({**raw, "datatype": similar}))
        ctx.raises(lambda p=path3: cls.from_file(p), f"file with datatype {similar} loaded as {name}", (ValueError,))
    ctx.nontrivial(len(case["kwargs"]) >= 4)


@facet(
    "P11",
    "strictness",
    lambda: st.fixed_dictionaries({"base": pair_st(), "extra": st.sampled_from(["foo", "Name", "_x", "voltage_mv"]), "idx": st.integers(0, 10**6), "bad": st.sampled_from(["nan", "inf", "-inf"])}),
    quick=500,
    thorough=10000,
    shards=2,
    rule="generated instances: attributes can't be changed, unknown parameters (as argument or in a file) and "
    "non-finite numbers are refused, item-access equals attribute-access, equal content gives equal hashes and a changed parameter a different one",
)
def p11_strict(case, ctx):
    base = case["base"]
    cls, model = build(base)
    kwargs = base["kwargs"]
    dump = plain(model.model_dump())
    hash_1 = model.get_hash()
    # access
    keys = list(model.keys())
    ctx.eq(set(keys), set(dump), "keys()")
    items = dict(model.items())
    for key in keys:
        ctx.check(key in model, f"'{key}' in model")
        val = getattr(model, key)
        ctx.check(model[key] is val or model[key] == val, f"model[{key}]")
        ctx.check(items[key] is val or items[key] == val, f"items()[{key}]")
    ctx.check("not_a_field" not in model, "unknown key is contained")
    # frozen
    field = keys[case["idx"] % len(keys)]

    def assign():
        setattr(model, field, None)

    ctx.raises(assign, f"assignment of {field}")
    ctx.eq(plain(model.model_dump()), dump, "model after refused assignment")
    # unknown parameters
    if case["extra"] not in keys:
        ctx.raises(
            lambda: cls(**{**copy.deepcopy(kwargs), case["extra"]: 1}),
            f"unknown parameter {case['extra']}",
            (ValueError, TypeError),
        )
        path = model.to_file(ctx.tmp / "m.yaml")
        raw = yaml.safe_load(path.read_text())
        raw["parameters"][case["extra"]] = 1
        path.write_text(yaml.safe_dump(raw))
        ctx.raises(lambda: cls.from_file(path), "unknown parameter in file", (ValueError, TypeError))
    # non-finite numbers
    nums = [k for k, v in kwargs.items() if isinstance(v, float) and isinstance(dump.get(k), float)]
    if nums:
        num = nums[case["idx"] % len(nums)]
        ctx.raises(
            lambda: cls(**{**copy.deepcopy(kwargs), num: float(case["bad"])}),
            f"{num}={case['bad']}",
            (ValueError, ArithmeticError),
        )
        ctx.nontrivial()
    # hash
    if "id" in dump and "id" not in kwargs:
        return  # random identity
    if any(k in dump and k not in kwargs for k in ("created", "updated_last")):
        return  # depends on time of creation
    if base["model"] in {"Experiment", "TestbedTasks", "ObserverTasks", "EmulationTask", "HarvestTask", "Testbed", "Observer"}:
        return
    _, twin = build(base)
    if plain(twin.model_dump()) == dump:
        ctx.eq(twin.get_hash(), hash_1, "hash of equal model")
    for key in ("comment", "verbose", "uart_baudrate", "samplerate", "gain", "samples_n"):
        if isinstance(dump.get(key), int) and not isinstance(dump.get(key), bool):
            new = {**copy.deepcopy(kwargs), key: dump[key] - 1 if dump[key] > 10 else dump[key] + 1}
        elif isinstance(kwargs.get(key), str):
            new = {**copy.deepcopy(kwargs), key: "changed " + kwargs[key][:400].strip()}
        else:
            continue
        try:
            with silence():
                other = cls(**new)
        except ValueError:
            continue
        if plain(other.model_dump()) != dump:
            ctx.check(other.get_hash() != hash_1, f"hash does not depend on {key}")
            ctx.nontrivial()
    for key, val in base.get("alt", {}).items():
        try:
            with silence():
                other = cls(**{**copy.deepcopy(kwargs), key: copy.deepcopy(val)})
        except ValueError:
            continue
        if plain(other.model_dump()) != dump:
            ctx.check(other.get_hash() != hash_1, f"hash does not depend on {key}")
            ctx.nontrivial()


@facet(
    "P11",
    "text_forms",
    lambda: case_st(),
    quick=200,
    thorough=10000,
    shards=2,
    rule="generated instances of 25 model classes: the printed form is yaml with exactly the parameters that differ from the defaults, "
    "the json form is loaded again to equal values and hash, the schema can be stored and names every parameter; "
    "non-trivial: at least 4 parameters were given",
)
def p11_text(case, ctx):
    cls, model = build(case)
    ctx.label(case["model"])
    dump = plain(model.model_dump())
    hash_1 = model.get_hash()
    # json
    text = model.model_dump_json()
    with silence():
        back = cls.model_validate_json(text)
    ctx.eq(plain(back.model_dump()), dump, "model from json")
    ctx.eq(back.get_hash(), hash_1, "hash of model from json")
    # schema
    dest = ctx.tmp / (case["sub"] + case["file"])
    dest.parent.mkdir(parents=True, exist_ok=True)
    cls.schema_to_file(dest)
    stored = dest.with_suffix(".yaml")
    ctx.check(stored.is_file(), "schema was not stored")
    schema = yaml.safe_load(stored.read_text())
    ctx.eq(schema, json.loads(json.dumps(cls.model_json_schema())), "stored schema")
    ctx.eq(set(schema["properties"]), set(dump), "parameters in schema")
    # printed form (a few models print their name instead)
    if str(model) != str(dump.get("name")):
        shown = yaml.safe_load(str(model))
        want = model.model_dump(exclude_unset=True, exclude_defaults=True)
        ctx.eq(set(shown), set(want), "parameters in printed form")
        for key, val in want.items():
            if isinstance(val, (int, float, str, bool)):
                ctx.eq(shown[key], val, f"{key} in printed form")
    ctx.eq(plain(model.model_dump()), dump, "model afterwards")
    ctx.nontrivial(len(case["kwargs"]) >= 4)


@facet(
    "P11",
    "task_files",
    lambda: case_st(["HarvestTask", "EmulationTask", "FirmwareModTask", "ProgrammingTask", "ObserverTasks", "TestbedTasks"]),
    quick=300,
    thorough=6000,
    shards=2,
    rule="generated tasks handed over as object, file-path or string give the same wrapper and can be extracted to equal tasks "
    "(task-sets are split per observer or refused); non-trivial: a task-set",
)
def p11_task(case, ctx):
    from shepherd_core.data_models.task import extract_tasks
    from shepherd_core.data_models.task import prepare_task

    cls, model = build(case)
    ctx.label(case["model"])
    path = model.to_file(ctx.tmp / "t.yaml", minimal=False)
    with silence():
        wraps = [prepare_task(model), prepare_task(path), prepare_task(str(path))]
    dump = plain(model.model_dump())
    for wrap in wraps:
        ctx.check(isinstance(wrap, Wrapper), "prepare_task() returns a wrapper")
        ctx.eq(wrap.datatype, case["model"], "datatype of wrapper")
        with silence():
            ctx.eq(plain(cls(**wrap.parameters).model_dump()), dump, "wrapped parameters")
        if case["model"] == "TestbedTasks":
            ctx.raises(lambda: extract_tasks(wrap), "task-set", (ValueError,))
            with silence():
                tasks = extract_tasks(wrap, no_task_sets=False)
            ctx.eq([plain(t.model_dump()) for t in tasks], [dump], "task-set")
        elif case["model"] == "ObserverTasks":
            with silence():
                tasks = extract_tasks(wrap)
            names = ["fw1_mod", "fw2_mod", "fw1_prog", "fw2_prog", "emulation"]
            want = [dump[n] for n in names if dump[n] is not None]
            ctx.eq([plain(t.model_dump()) for t in tasks], want, "extracted tasks")
        else:
            with silence():
                tasks = extract_tasks(wrap)
            ctx.eq([(type(t), plain(t.model_dump())) for t in tasks], [(cls, dump)], "extracted task")
    if case["model"] == "TestbedTasks":
        ctx.nontrivial()
        for src in (model, path):
            done = set()
            for obt in model.observer_tasks:
                if obt.observer in done:
                    continue
                done.add(obt.observer)
                with silence():
                    wrap = prepare_task(src, obt.observer)
                ctx.eq(wrap.datatype, "ObserverTasks", "type for one observer")
                ctx.eq(plain(wrap.parameters), plain(obt.model_dump()), f"tasks of {obt.observer}")
            ctx.raises(lambda: prepare_task(src, "no such sheep"), "unknown observer", (ValueError,))
    ctx.raises(
        lambda: extract_tasks(Wrapper(datatype="SystemLogging", parameters={})), "no task", (ValueError,)
    )


# ------------------------------------------------------------------ P12
def fixture_cases():
    out = []
    for typ, items in gen.fixtures().items():
        for item in items:
            out.append({"type": typ, "name": item["name"], "id": item["id"]})
    return out


@facet(
    "P12",
    "shipped_fixtures",
    None,
    quick=1,
    cases=fixture_cases,
    rule="every shipped fixture (enumerated): query by name (any case), id and with one overridden parameter equals an own resolution of the yaml-files; "
    "ids and names are unique",
)
def p12_shipped(case, ctx):
    from shepherd_core.testbed_client import tb_client

    typ, name, uid = case["type"], case["name"], case["id"]
    same = [f for f in gen.fixtures()[typ] if f["id"] == uid or str(f["name"]).lower() == str(name).lower()]
    ctx.check(len(same) == 1, f"{typ} '{name}' (id {uid}) is ambiguous: {[(f['name'], f['id']) for f in same]}")
    want = gen.resolve(typ, name)
    cls_name = {"gpio": "GPIO", "mcu": "MCU"}.get(typ)
    classes = {k.lower(): v for k, v in gen.classes().items()}
    cls = gen.classes()[cls_name] if cls_name else classes[typ]
    queries = [{"name": name}, {"name": name.upper()}, {"name": name.lower()}, {"id": uid}]
    for query in queries:
        got, _ = tb_client.try_completing_model(cls.__name__, dict(query))
        ctx.eq(got, want, f"{typ} queried by {query}")
    ctx.check(uid in tb_client.query_ids(cls.__name__), f"{uid} not in ids")
    ctx.check(name.lower() in tb_client.query_names(cls.__name__), f"{name} not in names")
    if typ == "virtualharvesterconfig" and name == "neutral":
        ctx.raises(lambda: cls(name=name), "neutral harvester", (ValueError,))
        return
    with silence():
        models = [cls(**q) for q in queries]
    dumps = [
        {k: v for k, v in plain(m.model_dump()).items() if k not in AUTO or k in want} for m in models
    ]
    if typ == "testbed":
        for dump in dumps:
            dump["observers"] = [
                {k: v for k, v in o.items() if not isinstance(v, dict)} for o in dump["observers"]
            ]
    for dump, query in zip(dumps[1:], queries[1:]):
        ctx.eq(
            {k: v for k, v in dump.items() if not isinstance(v, dict)},
            {k: v for k, v in dumps[0].items() if not isinstance(v, dict)},
            f"{typ} created by {query} vs by name",
        )
    for key, val in want.items():
        if isinstance(val, (str, bool, int)) and key not in {
            "data_path", "ip", "data_on_server", "data_on_observer", "mcu1", "mcu2", "created", "id", "data",
            "voltage_step_mV", "current_limit_uA", "data_hash",
        }:
            got = dumps[0][key]
            ctx.eq(got, val.strip() if isinstance(val, str) else val, f"{typ} {name}: {key}")
    if "comment" not in want or want["comment"] != "other":
        with silence():
            alt = cls(name=name, comment="other")
        ctx.eq(alt.comment, "other", "overridden comment")
        with silence():
            again = cls(name=name)
        ctx.eq(again.comment, models[0].comment, "comment after someone else did override it")
    ctx.nontrivial()


KEYS = ["p", "q", "r", "s", "t"]
VALS = st.one_of(
    st.integers(-5, 5), st.sampled_from(["x", "y", None, True, 0.5]), st.lists(st.integers(0, 3), max_size=3),
    st.dictionaries(st.sampled_from(["a", "b"]), st.integers(0, 3), max_size=2),
)


@st.composite
def db_st(draw, circles=False):
    n = draw(st.integers(1, 8))
    items = []
    names = draw(
        st.lists(
            st.sampled_from(["Alpha", "beta", "GAMMA", "delta-1", "e.p", "Zeta 2", "eta", "Theta+", "iota", "kappa"]),
            min_size=n, max_size=n, unique=True,
        )
    )
    ids = draw(st.lists(st.integers(1, 10**6), min_size=n, max_size=n, unique=True))
    for i in range(n):
        par = {"id": ids[i], "name": names[i]}
        par.update(draw(st.dictionaries(st.sampled_from(KEYS), VALS, max_size=4)))
        if i > 0 and draw(st.integers(0, 3)) > 0:
            ref = draw(st.sampled_from(names[:i]))
            par["inherit_from"] = draw(st.sampled_from([ref, ref.lower(), ref.upper()]))
        items.append({"type": draw(st.sampled_from(["alpha", "alpha", "alpha", "Beta"])) if i == 0 else None, "par": par})
    if circles:
        a, b = sorted(draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2)))
        # close the circle: walk from b upwards
        for i in range(a + 1, b + 1):
            items[i]["par"]["inherit_from"] = names[i - 1]
        items[a]["par"]["inherit_from"] = names[b]
    order = draw(st.permutations(list(range(n))))
    queries = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "kind": st.sampled_from(["name", "id", "name+", "id+", "inherit", "inherit+name", "unknown"]),
                    "idx": st.integers(0, n - 1),
                    "case": st.integers(0, 2),
                    "over": st.dictionaries(st.sampled_from([*KEYS, "u"]), VALS, min_size=1, max_size=3),
                }
            ),
            min_size=1,
            max_size=10,
        )
    )
    return {
        "items": [items[i]["par"] for i in order],
        "files": draw(st.integers(1, 3)),
        "queries": queries,
        "circle": circles,
    }


def variant(name, num):
    return [name, name.lower(), name.upper()][num]


def own_client(fixs):
    """Client on top of generated fixtures, completion-logic comes from the base-class."""
    from shepherd_core.testbed_client.client_abc_fix import AbcClient

    class Client(AbcClient):
        def __init__(self):
            pass

        def insert(self, data):
            raise NotImplementedError

        def query_ids(self, model_type):
            return [f["id"] for f in fixs[model_type]]

        def query_names(self, model_type):
            return list(fixs[model_type].keys())

        def query_item(self, model_type, uid=None, name=None):
            if uid is not None:
                return fixs[model_type].query_id(uid)
            if name is not None:
                return fixs[model_type].query_name(name)
            raise ValueError("neither")

        def try_inheritance(self, model_type, values):
            return fixs[model_type].inheritance(values)

        def fill_in_user_data(self, values):
            return values

    return Client()


@facet(
    "P12",
    "inheritance",
    lambda: st.one_of(db_st(), db_st(), db_st(circles=True)),
    quick=2400,
    thorough=60000,
    shards=4,
    rule="generated fixture-databases (1-8 entries in random order over several files, inheritance-forests, optional circles) and queries by name / id / partial / inherit_from; "
    "result equals own resolution, circles and unknown names are refused, the database is never altered; non-trivial: some query inherits over at least 2 levels",
)
def p12_inheritance(case, ctx):
    items = case["items"]
    n_files = case["files"]
    root = ctx.tmp / "fix"
    (root / "sub").mkdir(parents=True)
    for num in range(n_files):
        part = [{"datatype": ["Thing", "thing"][i % 2], "parameters": par} for i, par in enumerate(items) if i % n_files == num]
        part += [{"datatype": "Other", "parameters": {"id": 1, "name": "alpha", "p": "wrong type"}}]
        (root / ("sub" if num else ".") / f"f{num}.yaml").write_text(yaml.safe_dump(part, sort_keys=False))
    with silence():
        fixs = Fixtures(root, reset=True)
    client = own_client(fixs)
    ctx.eq(sorted(client.query_ids("THING")), sorted(p["id"] for p in items), "ids")
    ctx.eq(sorted(client.query_names("thing")), sorted(p["name"].lower() for p in items), "names")
    pool = {p["name"].lower(): p for p in items}
    ctx.eq({p["name"]: p for p in fixs["thing"]}, {p["name"]: p for p in items}, "iterated content")

    def depth(name):
        num = 0
        while "inherit_from" in pool[name.lower()]:
            name = pool[name.lower()]["inherit_from"]
            num += 1
            if num > 20:
                return -1
        return num

    state = copy.deepcopy(items)
    for par in items:
        for key in (par["id"], str(par["id"]), par["name"], par["name"].upper()):
            ctx.eq(fixs["Thing"][key], par, f"entry for key {key!r}")
    ctx.eq(fixs["thing"].refs(), {par["id"]: par["name"] for par in items}, "references")
    for query in case["queries"]:
        par = items[query["idx"]]
        name = variant(par["name"], query["case"])
        over = copy.deepcopy(query["over"])
        kind = query["kind"]
        base = par["name"]
        if kind == "unknown":
            for args in ({"name": "nope"}, {"id": 10**7}, {"inherit_from": "nope", "p": 1}):
                ctx.raises(lambda: client.try_completing_model("Thing", dict(args)), f"unknown {args}", (ValueError,))
            ctx.raises(lambda: client.try_completing_model("Nothing", {"name": name}), "unknown type", (ValueError,))
            continue
        if kind == "name":
            args, want = {"name": name}, {}
        elif kind == "id":
            args, want = {"id": par["id"]}, {}
        elif kind == "name+":
            args = {"name": name, **over}
            want = {"name": name, **over}
        elif kind == "id+":
            args = {"id": par["id"], **over}
            want = over
        elif kind == "inherit":
            args = {"inherit_from": name, **over}
            want = {"name": name, **over}
        else:
            args = {"inherit_from": name, "name": "brand new", **over}
            want = {"name": "brand new", **over}
        given = copy.deepcopy(args)
        dep = depth(base)
        if dep < 0:
            ctx.label("circle")
            ctx.raises(lambda: client.try_completing_model("Thing", args), f"circular inheritance by {given}", (ValueError,))
            ctx.nontrivial()
            continue
        got, chain = client.try_completing_model("Thing", args)
        exp = {**gen.resolve("thing", base, pool), **want}
        ctx.eq(got, exp, f"result of {given}")
        if len(given) > 1:
            ctx.eq(args, given, "arguments after query")
        # a caller may work on its result
        got["p"] = "altered"
        got["new"] = 1
        ctx.nontrivial(dep >= 2)
        ctx.label(f"depth{dep}")
    ctx.eq(items, state, "harness-state")
    ctx.eq(
        sorted((json.dumps(p, sort_keys=True) for p in fixs["thing"])),
        sorted((json.dumps(p, sort_keys=True) for p in items)),
        "database after queries",
    )


@facet(
    "P12",
    "model_inheritance",
    lambda: st.fixed_dictionaries(
        {
            "base": st.sampled_from([f["name"] for f in gen.fixtures()["virtualsourceconfig"]]),
            "over": st.fixed_dictionaries({}, optional=gen.VSRC_FIELDS),
            "name": gen.name_st(),
            "mode": st.sampled_from(["inherit", "name"]),
            "case": st.integers(0, 2),
        }
    ),
    quick=400,
    thorough=8000,
    shards=2,
    rule="virtual sources derived from a shipped one: given parameters win, all others come from the base; the base stays as it was; non-trivial: >=2 overrides",
)
def p12_models(case, ctx):
    from shepherd_core.data_models import VirtualSourceConfig as Src

    base_name = variant(case["base"], case["case"])
    with silence():
        base = Src(name=case["base"])
        if case["mode"] == "inherit":
            new = Src(inherit_from=base_name, name=case["name"], **case["over"])
        else:
            new = Src(name=base_name, **case["over"])
        again = Src(name=case["base"])
    db, dn, da = (plain(m.model_dump()) for m in (base, new, again))
    ctx.eq(da, db, "base after derivation")
    for key, val in db.items():
        if key == "name":
            continue
        want = case["over"].get(key, val)
        ctx.eq(dn[key], want, f"derived {key}")
    if case["mode"] == "inherit":
        ctx.eq(dn["name"], case["name"].strip(), "name")
    else:
        ctx.eq(dn["name"].lower(), base_name.lower(), "name")
    ctx.nontrivial(len(case["over"]) >= 2)


@facet(
    "P12",
    "insert",
    lambda: st.lists(
        st.sampled_from(["VirtualSourceConfig", "VirtualHarvesterConfig", "EnergyEnvironment", "GPIO", "MCU", "Cape"]).flatmap(
            lambda n: st.fixed_dictionaries(
                {
                    "model": st.just(n),
                    "kwargs": gen.by_name()[n],
                    # part that is taken over from the previous model of the same class
                    "reuse": st.sampled_from([None, None, "name", "id", "both"]),
                }
            )
        ),
        min_size=1,
        max_size=4,
    ),
    quick=250,
    thorough=5000,
    shards=2,
    rule="generated models inserted in the client are found by name and id with identical content, and serve as base for new instances",
)
def p12_insert(case, ctx):
    from shepherd_core.testbed_client import tb_client

    client = tb_client
    backup = copy.deepcopy(client.__dict__)
    last: dict = {}
    names: dict = {}
    ids: dict = {}
    try:
        for item in case:
            cls, model = build(item)
            prev = last.get(item["model"])
            if prev is not None and item.get("reuse") is not None:
                keys = ("name", "id") if item["reuse"] == "both" else (item["reuse"],)
                again = {**item["kwargs"], **{key: prev[key] for key in keys}}
                cls, model = build({"model": item["model"], "kwargs": again})
                ctx.label(f"same {item['reuse']}")
            last[item["model"]] = {"name": model.name, "id": model.id}
            dump = plain(model.model_dump())
            ctx.check(client.insert(model) is True, "insert() reports success")
            ctx.check(model.id in client.query_ids(item["model"]), "id after insert")
            ctx.check(model.name.lower() in client.query_names(item["model"]), "name after insert")
            with silence():
                by_name = cls(name=model.name)
                by_id = cls(id=model.id)
                if item["model"] != "EnergyEnvironment" or True:
                    derived = cls(inherit_from=model.name, comment="derived one")
            ctx.eq(plain(by_name.model_dump()), dump, "model queried by name")
            ctx.eq(plain(by_id.model_dump()), dump, "model queried by id")
            ctx.eq(plain(derived.model_dump()), {**dump, "comment": "derived one"}, "derived model")
            ctx.nontrivial()
            # the latest model wins, all others stay as they were
            names[item["model"], model.name.lower()] = (cls, dump)
            ids[item["model"], model.id] = (cls, dump)
            with silence():
                for (_, key), (kind, want) in names.items():
                    ctx.eq(plain(kind(name=key).model_dump()), want, f"{key} after further inserts")
                for (_, key), (kind, want) in ids.items():
                    ctx.eq(plain(kind(id=key).model_dump()), want, f"id {key} after further inserts")
    finally:
        client.__dict__.clear()
        client.__dict__.update(backup)
