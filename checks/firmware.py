"""P19-P20: embedding, recognizing & patching of firmware."""

from __future__ import annotations

import hashlib
import random
import struct
from pathlib import Path

import zstandard
from hypothesis import strategies as st

from harness.core import facet
from harness.util import b64
from harness.util import seeded
from harness.util import silence
from harness.util import unb64
from shepherd_core import fw_tools
from shepherd_core.data_models import FirmwareDType
from shepherd_core.data_models.content.firmware import Firmware
from shepherd_core.data_models.task import FirmwareModTask

OWNER = {"owner": "jane", "group": "test"}
SYM = "SHEPHERD_NODE_ID"


def sha(data: bytes) -> str:
    return hashlib.sha3_224(data).hexdigest()


# ---------------------------------------------------------------- independent file-formats
def ihex_line(kind: int, addr: int, data: bytes) -> str:
    rec = bytes([len(data), addr >> 8, addr & 255, kind]) + data
    return ":" + (rec + bytes([-sum(rec) & 255])).hex().upper()


def ihex_text(segs: list[tuple[int, bytes]], width: int = 16, start: int | None = None) -> str:
    lines, high = [], 0
    for base, data in segs:
        pos = 0
        while pos < len(data):
            addr = base + pos
            if addr >> 16 != high:
                high = addr >> 16
                lines.append(ihex_line(4, 0, high.to_bytes(2, "big")))
            num = min(width, len(data) - pos, 0x10000 - (addr & 0xFFFF))
            lines.append(ihex_line(0, addr & 0xFFFF, data[pos : pos + num]))
            pos += num
    if start is not None:
        lines.append(ihex_line(5, 0, start.to_bytes(4, "big")))
    lines.append(":00000001FF")
    return "\n".join(lines) + "\n"


def ihex_parse(text: str) -> dict[int, int]:
    mem: dict[int, int] = {}
    base = 0
    for line in text.split():
        rec = bytes.fromhex(line[1:])
        addr = rec[1] << 8 | rec[2]
        data = rec[4 : 4 + rec[0]]
        if rec[3] == 0:
            for i, byte in enumerate(data):
                mem[base + addr + i] = byte
        elif rec[3] == 2:
            base = int.from_bytes(data, "big") << 4
        elif rec[3] == 4:
            base = int.from_bytes(data, "big") << 16
    return mem


def elf_image(spec: dict) -> tuple[bytes, dict]:
    """Minimal 32 bit executable. Returns image and layout (address, offset & size of sections)."""
    end = "<" if spec["little"] else ">"
    rng = random.Random(spec["seed"])
    own = [n.encode() for n in spec["names"]]
    names = [b"", b".symtab", b".strtab", b".shstrtab", *own]
    shstr = b"\0".join(names) + b"\0"
    offs_name = [sum(len(n) + 1 for n in names[:i]) for i in range(len(names))]
    secs = [rng.randbytes(size) for _, size in spec["secs"]]
    addrs = [a for a, _ in spec["secs"]]
    n_ph = len(secs)
    pos = 52 + 32 * n_ph
    offs = []
    for blob in secs:
        pos = (pos + 3) & ~3
        offs.append(pos)
        pos += len(blob)
    strtab = b"\0"
    syms = [struct.pack(end + "IIIBBH", 0, 0, 0, 0, 0, 0)]
    for name, addr, sec in spec["syms"]:
        syms.append(struct.pack(end + "IIIBBH", len(strtab), addr, 2, 0x11, 0, sec + 1))
        strtab += name.encode() + b"\0"
    symtab = b"".join(syms)
    off_sym = (pos + 3) & ~3
    off_str = off_sym + len(symtab)
    off_shs = off_str + len(strtab)
    off_sh = (off_shs + len(shstr) + 3) & ~3
    out = bytearray(off_sh)
    ident = b"\x7fELF" + bytes([1, 1 if spec["little"] else 2, 1, 0]) + bytes(8)
    flags = 0x05000200 if spec["machine"] == 40 else 0
    out[:52] = ident + struct.pack(
        end + "HHIIIIIHHHHHH", spec.get("type", 2), spec["machine"], 1, addrs[0], 52, off_sh, flags, 52, 32, n_ph, 40, 4 + len(secs), 3 + len(secs)
    )
    for i, blob in enumerate(secs):
        ph = struct.pack(end + "IIIIIIII", 1, offs[i], addrs[i], addrs[i], len(blob), len(blob), 7, 1)
        out[52 + 32 * i : 84 + 32 * i] = ph
        out[offs[i] : offs[i] + len(blob)] = blob
    out[off_sym : off_sym + len(symtab)] = symtab
    out[off_str : off_str + len(strtab)] = strtab
    out[off_shs : off_shs + len(shstr)] = shstr
    n = len(secs)

    def sec(name: int, kind: int, flag: int, addr: int, off: int, size: int, link: int = 0, info: int = 0, align: int = 1, ent: int = 0) -> bytes:
        return struct.pack(end + "10I", offs_name[name], kind, flag, addr, off, size, link, info, align, ent)

    heads = [sec(0, 0, 0, 0, 0, 0, align=0)]
    heads += [sec(4 + i, 1, 6 if i == 0 else 3, addrs[i], offs[i], len(secs[i])) for i in range(n)]
    heads.append(sec(1, 2, 0, 0, off_sym, len(symtab), link=2 + n, info=1, align=4, ent=16))
    heads.append(sec(2, 3, 0, 0, off_str, len(strtab)))
    heads.append(sec(3, 3, 0, 0, off_shs, len(shstr)))
    return bytes(out) + b"".join(heads), {"offs": offs, "addrs": addrs, "secs": secs}


def elf_st(rng: random.Random) -> dict:
    machine = rng.choice([105, 40])
    first = rng.choice([0x4000, 0x4400, 0x1000, 0x8000]) if machine == 105 else rng.choice([0x1000, 0x8000, 0x2_6000])
    size1 = rng.choice([16, 64, 200, 1000]) + rng.randrange(40)
    secs = [[first, size1]]
    if rng.random() < 0.7:
        secs.append([first + size1 + rng.choice([0, 1, 2, 100, 5000]), 8 + rng.randrange(200)])
    if machine == 105 and rng.random() < 0.5:
        secs = [s for s in secs if s[0] + s[1] < 0xFF80] + [[0xFF80, 0x80]]
    names = [".text" if rng.random() < 0.7 else ".vectors"]
    names += rng.sample([".data", ".rodata", "__interrupt_vector_45", ".crt_0042", ".uicr", "info"], len(secs) - 1)
    syms = []
    decoys = ["SHEPHERD_NODE", "SHEPHERD_NODE_ID_2", "_SHEPHERD_NODE_ID", "shepherd_node_id", "main", "x"]
    rng.shuffle(decoys)

    def place() -> tuple[int, int]:
        i = rng.randrange(len(secs))
        addr, size = secs[i]
        return addr + rng.choice([0, 1, 2, size - 2, size - 3, rng.randrange(size - 1)]), i

    for name in decoys[: rng.randrange(4)]:
        syms.append([name, *place()])
    if rng.random() < 0.9:
        syms.insert(rng.randrange(len(syms) + 1), [SYM, *place()])
    return {"little": rng.random() < 0.75 or machine == 105, "machine": machine, "secs": secs, "names": names, "syms": syms, "seed": rng.randrange(2**30)}


# ---------------------------------------------------------------- P19 content of firmware
def content_st() -> st.SearchStrategy:
    return st.one_of(
        st.fixed_dictionaries({"raw": st.binary(max_size=200).map(b64)}),
        st.fixed_dictionaries({"seed": st.integers(0, 2**30), "n": st.sampled_from([0, 1, 1000, 70_000, 140_000, 300_000]), "alpha": st.sampled_from([1, 2, 16, 256])}),
        # large file with repetitive content and an individual end
        st.fixed_dictionaries({"seed": st.integers(0, 2**30), "n": st.just(500), "alpha": st.just(256), "times": st.sampled_from([2200, 4500]), "tail": st.integers(0, 255)}),
    )


def content(spec: dict) -> bytes:
    if "raw" in spec:
        return unb64(spec["raw"])
    rng = random.Random(spec["seed"])
    if "times" in spec:
        return rng.randbytes(spec["n"]) * spec["times"] + bytes([spec["tail"]])
    if spec["alpha"] == 256:
        return rng.randbytes(spec["n"])
    return bytes(rng.choices(range(spec["alpha"]), k=min(spec["n"], 70_000)))


NAMES = ["fw", "fw.hex", "fw.elf", "fw.ELF", "fw.v1.hex", "a b.bin", "sub/dir/fw.o", ".hidden"]


@facet(
    "P19",
    "embed_round_trip",
    lambda: st.fixed_dictionaries(
        {
            "data": content_st(),
            "dest": st.sampled_from(NAMES),
            "kind": st.sampled_from([t.value for t in FirmwareDType]),
            "occupied": st.booleans(),
            # source is replaced afterwards
            "next": st.one_of(st.none(), content_st()),
        }
    ),
    quick=250,
    thorough=6000,
    shards=2,
    rule="arbitrary file content is embedded, hashed, decoded and extracted (4 data types, several destinations), "
    "always compared with the original bytes; non-trivial: content of >=2 distinct bytes",
)
def p19_embed(case, ctx):
    data = content(case["data"])
    src = ctx.tmp / "src.bin"
    src.write_bytes(data)
    txt = fw_tools.file_to_base64(src)
    ctx.check(isinstance(txt, str) and txt.isascii(), "embedded content is no plain text")
    ctx.eq(zstandard.ZstdDecompressor().decompress(unb64(txt)) == data, True, "embedded content equals the file")
    ctx.eq(fw_tools.file_to_hash(src), sha(data), "hash of file")
    ctx.eq(fw_tools.base64_to_hash(txt), sha(data), "hash of embedded content")
    back = ctx.tmp / "new" / "folder" / "back.bin"
    fw_tools.base64_to_file(txt, back)
    ctx.eq(back.read_bytes() == data, True, "decoded file equals the original")
    kind = FirmwareDType(case["kind"])
    dest = ctx.tmp / "out" / case["dest"]
    suffix = ".hex" if "hex" in kind.value else ".elf"
    if case["occupied"]:
        dest.parent.mkdir(parents=True)
        dest.with_suffix(suffix).write_bytes(b"old content that is longer than many" * 9)
    arg = txt if kind in {FirmwareDType.base64_hex, FirmwareDType.base64_elf} else src
    got = fw_tools.extract_firmware(arg, kind, dest)
    ctx.eq(Path(got), dest.with_suffix(suffix), "path of the extracted file")
    ctx.eq(Path(got).read_bytes() == data, True, "extracted file equals the original")
    ctx.eq(src.read_bytes() == data, True, "source is unchanged")
    if case.get("next"):
        data2 = content(case["next"])
        src.write_bytes(data2)
        txt2 = fw_tools.file_to_base64(src)
        ctx.eq(zstandard.ZstdDecompressor().decompress(unb64(txt2)) == data2, True, "embedded content equals the changed file")
        ctx.eq(fw_tools.file_to_hash(src), sha(data2), "hash of changed file")
        ctx.eq(fw_tools.base64_to_hash(txt2), sha(data2), "hash of changed content")
        arg = txt2 if kind in {FirmwareDType.base64_hex, FirmwareDType.base64_elf} else src
        fw_tools.extract_firmware(arg, kind, dest)
        ctx.eq(Path(got).read_bytes() == data2, True, "extracted file equals the changed one")
    ctx.label(case["kind"])
    ctx.nontrivial(len(set(data)) > 1)


def damage_st() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "data": content_st(),
            "how": st.sampled_from(["none", "none", "flip", "cut", "cut", "swap", "hash", "hash", "other", "garbage", "noframe", "empty", "nohash"]),
            "pos": st.integers(0, 2**20),
            "char": st.sampled_from("ABCxyz019+/="),
            "kind": st.sampled_from(["hex", "elf"]),
            "name": st.sampled_from(["fw", "fw", "app.v1.2.hex", "a.b", "node.12.x"]),
        }
    )


@facet(
    "P19",
    "damaged_embedding",
    damage_st,
    quick=350,
    thorough=9000,
    shards=2,
    rule="embedded firmware whose text or hash was damaged is refused (or still decodes to the content of the hash), "
    "intact one is accepted and extracted identically; non-trivial: something was damaged",
)
def p19_damage(case, ctx):
    data = content(case["data"])
    src = ctx.tmp / "src.bin"
    src.write_bytes(data)
    txt = fw_tools.file_to_base64(src)
    digest: str | None = sha(data)
    how = case["how"]
    pos = case["pos"] % max(1, len(txt))
    if how == "flip":
        txt = txt[:pos] + case["char"] + txt[pos + 1 :]
    elif how == "cut":
        txt = txt[: max(3, pos)]
    elif how == "swap":
        txt = txt[pos:] + txt[:pos]
    elif how == "hash":
        at = case["pos"] % (len(digest) - 1)
        wrong = digest[:at] + ("1" if digest[at] == "0" else "0") + digest[at + 1 :]
        digest = [sha(data + b"x"), digest[: 1 + at], digest[1 + at :], digest + "0", wrong][case["pos"] // 64 % 5]
    elif how == "other":
        other = ctx.tmp / "other.bin"
        other.write_bytes(data[::-1] + b"1")
        txt = fw_tools.file_to_base64(other)
    elif how == "garbage":
        txt = "this is not a firmware"
    elif how == "noframe":
        txt = b64(data[:500] + b"plain content")
    elif how == "empty":
        txt = b64(b"")
    elif how == "nohash":
        digest = None

    def decode() -> bytes | None:
        try:
            return zstandard.ZstdDecompressor().decompress(unb64(txt))
        except Exception:  # noqa: BLE001 - anything undecodable
            return None

    try:
        fw = Firmware(id=1, name=case.get("name", "fw"), mcu={"name": "nrf52"}, data=txt, data_type=case["kind"], data_hash=digest, **OWNER)
    except ValueError:
        ctx.check(how not in {"none", "nohash"}, "intact firmware was refused")
        ctx.label("refused")
    else:
        ctx.label("accepted")
        plain = decode()
        ctx.check(plain is not None, "firmware was accepted although its content is not decodable")
        if digest is not None:
            ctx.eq(sha(plain), digest, "content of accepted firmware matches its hash")
        ctx.eq(fw.compare_hash(), True, "hash-comparison of accepted firmware")
        dest = fw.extract_firmware(ctx.tmp)
        ctx.eq(Path(dest), (ctx.tmp / fw.name).with_suffix("." + case["kind"]), "path of the extracted file")
        ctx.eq(dest.read_bytes() == plain, True, "extracted file equals the embedded content")
        if plain != data + b"y" and digest is not None:
            bad = ctx.tmp / "bad.bin"
            bad.write_bytes(data + b"y")
            ctx.eq(fw.compare_hash(bad), False, "hash-comparison with a different file")
            ctx.eq(fw.compare_hash(dest), True, "hash-comparison with the extracted file")
    ctx.label(how)
    ctx.nontrivial(how not in {"none", "nohash"})


# ---------------------------------------------------------------- P19 recognition of files
def hex_st(rng: random.Random) -> dict:
    style = rng.choice(["msp", "msp", "msp_broken", "nrf", "any", "empty"])
    segs = []

    def blob(n: int) -> list:
        return [rng.randrange(2**30), n]

    ivt = rng.choice([0x4000, 0x4400, 0xFF7F, 0xFF80, 0xFF80, 0x3FFF, 0x3FFF, 0, 0xFFFF, rng.randrange(0xFF80, 0x10000), rng.randrange(0x10000)]) if style == "msp_broken" else rng.randrange(0x4000, 0xFF80)
    if style in {"msp", "msp_broken"}:
        first = 0x4000 if style == "msp" or rng.random() < 0.7 else rng.choice([0x3FFE, 0x4002, 0x4400, 0])
        segs.append([first, *blob(rng.choice([2, 100, 3000, 12_000]))])
        if style == "msp" or rng.random() < 0.9:
            segs.append([0xFFFE, ivt, None] if style == "msp" or rng.random() < 0.8 else [rng.choice([0xFFFE, 0xFFFF]), *blob(1)])
        if rng.random() < 0.3:
            segs.append([0x10000, *blob(rng.choice([10, 500, 60_000]))])
    elif style == "nrf":
        segs.append([rng.choice([0, 0x1000, 0x2_6000]), *blob(rng.choice([4, 300, 5000]))])
        if rng.random() < 0.4:
            segs.append([0x1000_1000, *blob(16)])
    elif style == "any":
        segs.append([rng.randrange(2**20), *blob(1 + rng.randrange(300))])
    return {
        "segs": segs,
        "width": rng.choice([16, 32, 1, 255]) if style != "msp_broken" else 32,
        "start": rng.choice([None, None, 0x4000]),
        "suffix": rng.choice([".hex", ".HEX", ".ihex", ".ihx"]),
        "stem": rng.choice(["image", "image", "app.v1.2", "a b"]),
        "damage": rng.choice(["no"] * 6 + ["sum", "char", "cut_line", "overlap", "text", "type"]),
        "embed": rng.random() < 0.6,
        "pos": rng.randrange(2**16),
    }


def hex_memory(case: dict) -> list[tuple[int, bytes]]:
    out = []
    for addr, val, n in case["segs"]:
        out.append((addr, val.to_bytes(2, "little") if n is None else random.Random(val).randbytes(n)))
    return out


def arch_of(mem: dict[int, int]) -> str | None:
    if not mem:
        return None
    if min(mem) == 0x4000 and 0xFFFE in mem and 0xFFFF in mem :
        ivt = mem[0xFFFE] | mem[0xFFFF] << 8
        if 0x4000 <= ivt < 0xFF80:
            return "msp430"
    return "nrf52"


@facet(
    "P19",
    "hex_recognition",
    lambda: seeded(hex_st),
    quick=600,
    thorough=5000,
    shards=3,
    rule="generated intel-hex images (own encoder): intact ones are recognized with their architecture, embedded or "
    "referenced, and extracted identically, damaged ones are refused; non-trivial: >=2 segments or damaged",
)
def p19_hex(case, ctx):
    segs = hex_memory(case)
    text = ihex_text(segs, case["width"], case["start"])
    lines = text.split("\n")[:-1]
    idx = case["pos"] % len(lines)
    bad = case["damage"]
    if bad == "sum":
        last = int(lines[idx][-2:], 16)
        lines[idx] = lines[idx][:-2] + f"{(last + 1) & 255:02X}"
    elif bad == "char":
        lines[idx] = lines[idx][:5] + "G" + lines[idx][6:]
    elif bad == "cut_line":
        lines[idx] = lines[idx][:-2]
    elif bad == "overlap":
        data = [ln for ln in lines if ln[7:9] == "00"]
        if data:
            lines.insert(lines.index(data[0]), data[0])
        else:
            bad = "no"
    elif bad == "text":
        lines = ["int main(void)", "{ return 0; }"]
    elif bad == "type":
        lines.insert(0, ihex_line(9, 0, b"12"))
    path = ctx.tmp / (case.get("stem", "image") + case["suffix"])
    path.write_text("\n".join(lines) + "\n")
    mem = {a + i: b for a, blob in segs for i, b in enumerate(blob)}
    arch = arch_of(mem)
    kwargs = {"embed": case["embed"], **OWNER, "id": 3}
    if bad != "no":
        ctx.eq(fw_tools.is_hex(path), False, f"verdict on hex with damage '{bad}'")
        ctx.eq(fw_tools.is_hex_msp430(path), False, "arch-verdict msp430 of damaged hex")
        ctx.eq(fw_tools.is_hex_nrf52(path), False, "arch-verdict nrf52 of damaged hex")
        with silence():
            ctx.raises(lambda: fw_tools.determine_type(path), "type of damaged hex")
            ctx.raises(lambda: Firmware.from_firmware(path, **kwargs), "damaged hex as firmware")
        ctx.nontrivial(True)
        ctx.label("damage=" + bad)
        return
    ctx.eq(fw_tools.is_hex(path), True, "verdict on intact hex")
    ctx.eq(fw_tools.determine_type(path), FirmwareDType.path_hex, "type of intact hex")
    ctx.eq(fw_tools.is_hex_msp430(path), arch == "msp430", "is image for msp430")
    ctx.eq(fw_tools.firmware_to_hex(path), path, "conversion of hex returns it unchanged")
    ctx.label(f"arch={arch}")
    if arch is None:
        ctx.raises(lambda: fw_tools.determine_arch(path), "arch of an empty image")
        ctx.raises(lambda: Firmware.from_firmware(path, **kwargs), "empty image as firmware")
        return
    ctx.eq(fw_tools.determine_arch(path), arch, "arch of image")
    fw = Firmware.from_firmware(path, **kwargs)
    check_firmware(ctx, fw, path, {"msp430": "msp430fr", "nrf52": "nrf52"}[arch], "hex", embed=case["embed"])
    ctx.nontrivial(len(segs) > 1)


def check_firmware(ctx, fw, path: Path, mcu: str, kind: str, *, embed: bool) -> None:
    raw = path.read_bytes()
    ctx.eq(fw.mcu.name.lower(), mcu, "mcu of firmware")
    ctx.eq(fw.data_hash, sha(raw), "hash of firmware")
    ctx.eq(fw.data_type, kind if embed else f"path_{kind}", "type of firmware")
    ctx.eq(fw.data_local, not embed, "local file")
    ctx.eq(fw.name, path.name, "name of firmware")
    ctx.eq(fw.compare_hash(), True, "hash-comparison")
    dest = ctx.tmp / "extracted"
    dest.mkdir()
    for target in (dest, dest / "deep" / "own.bin"):
        got = fw.extract_firmware(target)
        want = (dest / fw.name if target == dest else target).with_suffix("." + kind)
        ctx.eq(Path(got), want, "path of the extracted firmware")
        ctx.eq(got.read_bytes() == raw, True, "extracted firmware equals the source")
    ctx.eq(path.read_bytes() == raw, True, "source is unchanged")
    task = FirmwareModTask.from_firmware(fw, firmware_file=dest, custom_id=7)
    ctx.eq(Path(task.firmware_file), (dest / fw.name).with_suffix(".hex"), "destination of the modification-task")
    (dest / "folder.v1").mkdir()
    for sub, want in (("plain", "plain"), ("new.hex", "new.hex"), ("folder.v1", f"folder.v1/{fw.name}")):
        task2 = FirmwareModTask.from_firmware(fw, firmware_file=dest / sub)
        got = Path(task2.firmware_file)
        ctx.eq(got, (dest / want).with_suffix(".hex") if sub == "folder.v1" else dest / want, f"destination of the modification-task for '{sub}'")
    for content_ in (b"", raw[:-1], raw + b"\0", raw[:1]):
        other = ctx.tmp / "other.bin"
        other.write_bytes(content_)
        ctx.eq(fw.compare_hash(other), content_ == raw, f"hash-comparison with file of {len(content_)} byte")
    ctx.eq((task.data, task.data_type), (fw.data, fw.data_type), "data of the modification-task")
    back = Firmware.from_file(fw.to_file(ctx.tmp / "model.yaml"))
    for key in ("id", "name", "mcu", "data_hash", "data_type", "data_local"):
        ctx.eq(back[key], fw[key], f"{key} of firmware after storing & loading")
    ctx.eq(str(back.data) == str(fw.data), True, "data of firmware after storing & loading")
    if not embed:
        for at in (0, 30, 55):
            wrong = fw.data_hash[:at] + ("1" if fw.data_hash[at] == "0" else "0") + fw.data_hash[at + 1 :]
            fw_w = Firmware(**{**fw.model_dump(), "data_hash": wrong})
            ctx.eq(fw_w.compare_hash(), False, f"hash-comparison with a hash that differs in digit {at}")
    # a referenced file changes & vanishes later, embedded firmware does not depend on it
    path.write_bytes(raw + b"\n")
    ctx.eq(fw.compare_hash(), embed, "hash-comparison after the source was changed")
    path.unlink()
    ctx.eq(fw.compare_hash(), embed, "hash-comparison after the source was removed")


@facet(
    "P19",
    "elf_recognition",
    lambda: seeded(lambda rng: {**elf_st(rng), "suffix": rng.choice([".elf", ".ELF", ".out", ".bin", ".o"]), "stem": rng.choice(["prog", "app.v1.2"]), "embed": rng.random() < 0.6, "cut": rng.choice([None] * 8 + [0, 3, 10, 40, 60])}),
    quick=200,
    thorough=4000,
    shards=4,
    rule="generated executables (own ELF writer, msp430 & ARM, little & big endian, 1-3 segments): converted image has exactly "
    "the content of the segments, the architecture is recognized, embedded or referenced firmware is extracted identically; "
    "truncated ones are refused; non-trivial: >=2 segments",
)
def p19_elf(case, ctx):
    img, lay = elf_image(case)
    path = ctx.tmp / (case.get("stem", "prog") + case["suffix"])
    kwargs = {"embed": case["embed"], **OWNER, "id": 3}
    if case["cut"] is not None:
        path.write_bytes(img[: case["cut"]])
        with silence():
            try:
                verdict = fw_tools.is_elf(path)
            except Exception:  # noqa: BLE001 - refusing with an error is fine as well
                verdict = False
            ctx.check(not (verdict and case["cut"] < 4), "file without magic number was recognized as ELF")
            ctx.raises(lambda: Firmware.from_firmware(path, **kwargs), "truncated ELF as firmware")
        ctx.label("truncated")
        return
    path.write_bytes(img)
    mem = {a + i: b for a, blob in zip(lay["addrs"], lay["secs"]) for i, b in enumerate(blob)}
    ctx.eq(fw_tools.is_elf(path), True, "verdict on ELF")
    ctx.eq(fw_tools.is_hex(path), False, "is ELF a hex")
    ctx.eq(fw_tools.determine_type(path), FirmwareDType.path_elf, "type of ELF")
    out = fw_tools.elf_to_hex(path, ctx.tmp / "conv.hex")
    ctx.eq(out, ctx.tmp / "conv.hex", "path of conversion")
    ctx.eq(ihex_parse(out.read_text()) == mem, True, "converted image equals the segments")
    ctx.eq(fw_tools.firmware_to_hex(path), path.with_suffix(".hex"), "default path of conversion")
    ctx.eq(ihex_parse(path.with_suffix(".hex").read_text()) == mem, True, "converted image equals the segments")
    ctx.eq(path.read_bytes() == img, True, "source of conversion is unchanged")
    arch = arch_of(mem)
    ctx.eq(fw_tools.determine_arch(path), arch, "arch of the image")
    ctx.eq(fw_tools.is_elf_msp430(path), arch == "msp430", "is image for msp430")
    name = "msp430fr" if case["machine"] == 105 else "nrf52"
    ctx.label(f"machine={case['machine']}", f"arch={arch}")
    if case["machine"] == 105 and arch != "msp430":
        ctx.raises(lambda: Firmware.from_firmware(path, **kwargs), "ELF for msp430 without its memory-layout")
    else:
        fw = Firmware.from_firmware(path, **kwargs)
        check_firmware(ctx, fw, path, name, "elf", embed=case["embed"])
    ctx.nontrivial(len(case["secs"]) > 1)


# ---------------------------------------------------------------- P20 patching of symbols
def patch_st(rng: random.Random) -> dict:
    ops = []
    for _ in range(rng.randrange(1, 5)):
        ops.append(
            {
                "kind": rng.choice(["mod", "mod", "over", "uid", "range", "missing"]),
                "value": rng.choice([0, 1, 255, 256, 0xFFFF, rng.randrange(2**16)]),
                "bad": rng.choice([-1, 2**16, 2**16 + 5, 10**9]),
            }
        )
    # the executable gets replaced in between, sometimes by other data
    if rng.random() < 0.4:
        pos = rng.randrange(len(ops) + 1)
        ops.insert(pos, {"kind": "swap", "elf": rng.choice([None, elf_st(rng), elf_st(rng)])})
        if rng.random() < 0.5:
            ops.insert(rng.randrange(pos + 1, len(ops) + 1), {"kind": "swap", "elf": elf_st(rng)})
    return {"elf": elf_st(rng), "ops": ops, "name": rng.choice(["fw.elf", "a.b.elf", "noext", "x.out"]), "len": rng.choice([1, 2, 3, 4])}


@facet(
    "P20",
    "patch_history",
    lambda: seeded(patch_st),
    quick=200,
    thorough=4000,
    shards=6,
    shrink=True,
    rule="histories of 1-4 patches on generated executables (symbol at any address of any segment, both endians, decoy symbols): "
    "(also when the file gets replaced in between) value reads back, exactly the two bytes of the symbol change in the named file, all other files stay identical, "
    "refused patches change nothing; non-trivial: >=1 successful patch",
)
def p20_history(case, ctx):
    img, lay = elf_image(case["elf"])
    path = ctx.tmp / case["name"]
    path.write_bytes(img)
    order = "little" if case["elf"]["little"] else "big"
    files = {path: img}
    where = {name: (lay["offs"][sec] + addr - lay["addrs"][sec], sec, addr) for name, addr, sec in case["elf"]["syms"]}
    patched = 0

    def unchanged(what: str) -> None:
        now = {p for p in ctx.tmp.iterdir() if p.is_file()}
        ctx.eq(sorted(p.name for p in now), sorted(p.name for p in files), f"files after {what}")
        for file, cont in files.items():
            ctx.check(file.read_bytes() == cont, f"{file.name} has not the expected content after {what}")

    with silence():
        for name, (off, sec, addr) in where.items():
            ctx.eq(fw_tools.find_symbol(path, name), True, f"symbol {name} found")
            room = lay["addrs"][sec] + len(lay["secs"][sec]) - addr
            if room >= case["len"]:
                want = int.from_bytes(img[off : off + case["len"]], order)
                ctx.eq(fw_tools.read_symbol(path, name, case["len"]), want, f"value of symbol {name} @{addr:#x}")
        ctx.eq(fw_tools.find_symbol(path, "not_here"), False, "missing symbol found")
        for name in (SYM, "main", "x", SYM.lower(), SYM[:-1], SYM + "_", SYM[1:], "MAIN"):
            if name not in where:
                ctx.eq(fw_tools.find_symbol(path, name), False, f"missing symbol {name} found")
                ctx.eq(fw_tools.read_symbol(path, name), None, f"value of missing symbol {name}")
        ctx.eq(fw_tools.read_symbol(path, "not_here"), None, "value of missing symbol")
        ctx.eq(fw_tools.read_arch(path) is not None, True, "arch of executable")
        for op in case["ops"]:
            if op["kind"] == "swap":
                if op["elf"] is None:
                    img, where = b":00000001FF\n", {}
                else:
                    img, lay = elf_image(op["elf"])
                    order = "little" if op["elf"]["little"] else "big"
                    where = {name: (lay["offs"][sec] + addr - lay["addrs"][sec], sec, addr) for name, addr, sec in op["elf"]["syms"]}
                path.write_bytes(img)
                files[path] = img
                for name in (SYM, "main", "x"):
                    ctx.eq(fw_tools.find_symbol(path, name), name in where, f"symbol {name} found after replacing the file")
                off = where[SYM][0] if SYM in where else None
                ctx.eq(fw_tools.read_uid(path), None if off is None else int.from_bytes(img[off : off + 2], order), "uid of replaced file")
                ctx.eq(fw_tools.read_arch(path) is not None, op["elf"] is not None, "arch after replacing the file")
                continue
            kind, value = op["kind"], op["value"]
            if kind == "missing":
                ctx.eq(fw_tools.modify_symbol_value(path, "not_here", value), None, "result for missing symbol")
                unchanged("patching a missing symbol")
                continue
            if kind == "range":
                ctx.raises(lambda v=op["bad"]: fw_tools.modify_symbol_value(path, SYM, v), "value out of range")
                ctx.raises(lambda v=op["bad"]: fw_tools.modify_uid(path, v), "uid out of range")
                unchanged("a refused value")
                continue
            if kind == "uid":
                res = fw_tools.modify_uid(path, value)
            else:
                res = fw_tools.modify_symbol_value(path, SYM, value, overwrite=kind == "over")
            if SYM not in where:
                ctx.eq(res, None, "result for missing symbol")
                unchanged("patching a missing symbol")
                continue
            off = where[SYM][0]
            dest = path if kind in {"uid", "over"} else path.with_name(f"{path.stem}_{value}{path.suffix}")
            ctx.eq(res, dest, "path of patched file")
            new = bytearray(files[path])
            new[off : off + 2] = value.to_bytes(2, order)
            files[dest] = bytes(new)
            unchanged(f"patch '{kind}' with {value}")
            ctx.eq(fw_tools.read_uid(dest), value, "uid read back")
            ctx.eq(fw_tools.read_symbol(dest, SYM), value, "symbol read back")
            patched += 1
    ctx.label("patched" if patched else "nothing patched", order)
    ctx.nontrivial(patched > 0)


@facet(
    "P20",
    "no_executable",
    lambda: st.fixed_dictionaries(
        {
            "data": st.one_of(
                st.binary(max_size=200),
                st.binary(max_size=60).map(lambda b: b"\x7fEL" + b),
                st.sampled_from([b":00000001FF\n", b"SHEPHERD_NODE_ID", b"\x7f", b""]),
            ).map(bytes.hex),
            "value": st.integers(0, 2**16 - 1),
            "over": st.booleans(),
        }
    ),
    quick=200,
    thorough=4000,
    rule="files that are no executables (random bytes, almost-right magic number, hex-text, empty): no symbol is found or read, "
    "patching yields nothing, no file changes or appears; non-trivial: at least one byte",
)
def p20_no_elf(case, ctx):
    data = bytes.fromhex(case["data"])
    if data[:4] == b"\x7fELF":
        return
    path = ctx.tmp / "prog.elf"
    path.write_bytes(data)
    with silence():
        ctx.eq(fw_tools.find_symbol(path, SYM), False, "symbol found")
        ctx.eq(fw_tools.read_symbol(path, SYM), None, "value of symbol")
        ctx.eq(fw_tools.read_uid(path), None, "value of uid")
        ctx.eq(fw_tools.read_arch(path), None, "arch")
        ctx.eq(fw_tools.modify_symbol_value(path, SYM, case["value"], overwrite=case["over"]), None, "result of patch")
        ctx.eq(fw_tools.modify_uid(path, case["value"]), None, "result of patching the uid")
    ctx.eq(sorted(p.name for p in ctx.tmp.iterdir()), ["prog.elf"], "files")
    ctx.check(path.read_bytes() == data, "file was altered")
    ctx.nontrivial(len(data) > 0)


@facet(
    "P20",
    "shipped_binaries",
    lambda: seeded(lambda rng: {"file": rng.choice(["build_msp.elf", "build_nrf.elf"]), "sec": rng.randrange(100), "at": rng.random(), "edge": rng.choice([None, 0, 2]), "value": rng.randrange(2**16), "over": rng.random() < 0.5}),
    quick=120,
    thorough=2000,
    shards=4,
    rule="real firmware binaries of the repository with the id-symbol moved to any address of an allocated section: "
    "patched value reads back and only its two bytes change; all cases count as non-trivial",
)
def p20_shipped(case, ctx):
    import os  # noqa: PLC0415

    base = Path(os.environ["VERIF_REPO"]) / "shepherd_core/tests/fw_tools" / case["file"]
    img = bytearray(base.read_bytes())
    sh_off, = struct.unpack_from("<I", img, 32)
    num, = struct.unpack_from("<H", img, 48)
    secs = [struct.unpack_from("<10I", img, sh_off + 40 * i) for i in range(num)]
    tab = next(s for s in secs if s[1] == 2)
    strs = secs[tab[6]]
    pos = next(
        tab[4] + 16 * i
        for i in range(tab[5] // 16)
        if img[strs[4] + struct.unpack_from("<I", img, tab[4] + 16 * i)[0] :].startswith(SYM.encode() + b"\0")
    )
    fit = [s for s in secs if s[1] == 1 and s[2] & 2 and s[5] > 4 and s[3] > 0]
    sec = fit[case["sec"] % len(fit)]
    rel = {None: int(case["at"] * (sec[5] - 2)), 0: 0, 2: sec[5] - 2}[case["edge"]]
    struct.pack_into("<I", img, pos + 4, sec[3] + rel)
    off = sec[4] + rel
    path = ctx.tmp / case["file"]
    path.write_bytes(img)
    with silence():
        ctx.eq(fw_tools.read_uid(path), int.from_bytes(img[off : off + 2], "little"), "value before patch")
        res = fw_tools.modify_symbol_value(path, SYM, case["value"], overwrite=case["over"])
        ctx.check(res is not None, "patch was refused")
        want = bytearray(img)
        want[off : off + 2] = case["value"].to_bytes(2, "little")
        ctx.eq(res.read_bytes() == bytes(want), True, "only the two bytes of the symbol change")
        ctx.eq(fw_tools.read_uid(res), case["value"], "value after patch")
        if not case["over"]:
            ctx.eq(path.read_bytes() == bytes(img), True, "original stays unchanged")
    ctx.label(case["file"])
    ctx.nontrivial(True)
