"""encrypted firmware images"""
import os
import pickle
import tempfile
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES import firmwares as fw, config_parser as cp

keys = st.sampled_from([16, 24, 32]).flatmap(lambda n: st.binary(min_size=n, max_size=n)).map(bytes.hex)
data = st.one_of(st.binary(max_size=70), st.sampled_from([0, 15, 16, 17, 31, 32, 33, 48, 64, 1000]).flatmap(lambda n: st.binary(min_size=min(n, 70), max_size=min(n, 70)).map(lambda b: (b * 15)[:n] if b else b))).map(bytes.hex)


def encrypt(key, d):
    return fw.encrypt(fw.init_cipher(key), d)


def round_trip(ctx, case):
    key, d = map(bytes.fromhex, case)
    ctx.nt(len(d) > 0)
    c = encrypt(key, d)
    ctx.eq(len(c) % 16, 0, "whole blocks")
    ctx.eq(fw.decrypt(fw.init_cipher(key), c), d, "decrypted data")
    ctx.eq(fw.decrypt(fw.init_cipher(key), encrypt(key, d)), d, "decrypted data, other vector")
    ctx.check(d == b"" or len(d) < 8 or d not in c, "data does not show in the encrypted octets")


def many(ctx, case):
    """one cipher for several images, in any order"""
    key, ds, order = bytes.fromhex(case[0]), [bytes.fromhex(x) for x in case[1]], case[2]
    ctx.nt(len(ds) > 1)
    e = fw.init_cipher(key)
    cs = [fw.encrypt(e, d) for d in ds]
    c = fw.init_cipher(key)
    for i in order:
        i %= len(ds)
        ctx.eq(fw.decrypt(c, cs[i]), ds[i], F"image {i}")


def damaged(ctx, case):
    key, d, how = bytes.fromhex(case[0]), bytes.fromhex(case[1]), case[2]
    c = bytearray(encrypt(key, d))
    ctx.nt(len(d) > 0)
    k2 = key
    match how:
        case ["bit", p]:
            p %= len(c) * 8
            c[p // 8] ^= 1 << p % 8
        case ["cut", n]:
            c = c[:len(c) - 1 - n % len(c)]
        case ["block", i]:
            i %= len(c) // 16
            del c[i * 16:i * 16 + 16]
            if i == 0 and len(d) == 0 or i == 0:
                # the first block only carries the initial vector: without it the next one takes its place
                try:
                    ctx.check(fw.decrypt(fw.init_cipher(key), bytes(c)) != d or False, "data without its first block")
                except (KeyError, ValueError):
                    pass
                return
        case ["swap", i, j]:
            n = len(c) // 16
            i, j = i % n, j % n
            if i == j:
                return
            c[i * 16:i * 16 + 16], c[j * 16:j * 16 + 16] = c[j * 16:j * 16 + 16], c[i * 16:i * 16 + 16]
        case ["key", p]:
            k2 = bytearray(key)
            k2[p // 8 % len(k2)] ^= 1 << p % 8
            k2 = bytes(k2)
    ctx.label(how[0])
    ctx.raises(lambda: fw.decrypt(fw.init_cipher(k2), bytes(c)), F"{how} damaged", (KeyError, ValueError))


serial = [0]


def container(ctx, case):
    """the file of a manufacturer, found by its name in the configuration"""
    key, codec, firm, boots, name, wrong = case
    kb = bytes.fromhex(key)
    if codec == "ascii":
        kb = key.encode("ascii")[:32]
    firm = {((a, b, c), t): bytes.fromhex(d) for a, b, c, t, d in firm}
    boots = {(a, t): bytes.fromhex(d) for a, t, d in boots}
    serial[0] += 1
    man = F"M{serial[0]}"
    ctx.nt(len(firm) > 1)
    ctx.label("wrong", wrong != "no")
    dlms = cp.config["DLMS"]
    old = dlms.get("firmwares")
    with tempfile.TemporaryDirectory(dir=".") as tmp:
        path = os.path.join(tmp, "f.dat")
        e = fw.init_cipher(bytes((kb[0] ^ 1,)) + kb[1:] if wrong == "key" else kb)
        enc = [{k: fw.encrypt(e, v) for k, v in d.items()} for d in (firm, boots)]
        with open(path, "wb") as f:
            pickle.dump(((F"Plain_{name}" if wrong == "name" else F"CryptoFirmware_{name}"), *enc), f)
        entry = {"man": man, "path": path, "key": {"codec": "base85" if wrong == "codec" else codec, "value": kb.decode("ascii") if codec == "ascii" else kb.hex()}}
        dlms["firmwares"] = [{"man": "other", "path": "none", "key": entry["key"]}, entry]
        try:
            if wrong == "no" or (wrong == "key" and not firm and not boots):
                ctx.eq(fw.get_firmware(man.encode()), (firm, boots), "images of the manufacturer")
            else:
                ctx.raises(lambda: fw.get_firmware(man.encode()), F"wrong {wrong}", (ValueError,))
            ctx.eq(fw.get_firmware(F"X{serial[0]}".encode()), None, "unknown manufacturer")
        finally:
            if old is None:
                del dlms["firmwares"]
            else:
                dlms["firmwares"] = old


how = st.one_of(st.tuples(st.sampled_from(["bit", "cut", "block", "key"]), st.integers(0, 1 << 14)), st.tuples(st.just("swap"), st.integers(0, 99), st.integers(0, 99))).map(list)
small = st.binary(max_size=40).map(bytes.hex)
v = st.integers(0, 9)
PROP = Prop("C27", rule="images of every length around the block size, keys of all sizes; one bit, block or the length of the encrypted image changed, one bit of the key; containers with several images; "
            "non-trivial: image not empty, several images",
            assumptions=["the encrypted image carries SHA-256 of its data: an accidental match is not a case"],
            facets=[
                Facet("round_trip", st.tuples(keys, data), round_trip, quick=400, thorough=4000),
                Facet("many", st.tuples(keys, st.lists(data, min_size=1, max_size=5), st.lists(st.integers(0, 9), min_size=1, max_size=8)), many, quick=200, thorough=2000),
                Facet("damaged", st.tuples(keys, data, how), damaged, quick=600, thorough=8000),
                Facet("container", st.tuples(keys, st.sampled_from(["hex", "hex", "ascii"]), st.lists(st.tuples(v, v, v, st.sampled_from(["a", "b"]), small), max_size=4), st.lists(st.tuples(v, st.sampled_from(["a", "b"]), small), max_size=3),
                                             st.sampled_from(["1", "2.0"]), st.sampled_from(["no", "no", "no", "key", "name", "codec"])), container, quick=200, thorough=2000),
            ])
