"""configuration: values by path, messages"""
import json
import os
import subprocess
import sys
import tempfile
import tomllib
from hypothesis import strategies as st
from ..core import Prop, Facet, REPO
from src.DLMS_SPODES import config_parser as cp

with open("config.toml", "rb") as f:
    CONFIG = tomllib.load(f)
MESSAGES = CONFIG.get("DLMS", {}).get("messages", {})


def paths(d, pre=()):
    for k, v in d.items():
        yield [*pre, k], v
        if isinstance(v, dict):
            yield from paths(v, (*pre, k))


PATHS = list(paths(CONFIG))
plain = st.text(st.characters(codec="utf-8", exclude_characters="$"), max_size=8)
key = st.one_of(st.sampled_from(sorted(MESSAGES) or ["or"]), st.text(st.characters(codec="utf-8", exclude_characters="$"), min_size=1, max_size=8))
part = st.integers(0, 2).flatmap(lambda k: (st.tuples(st.just("text"), plain), st.just(["$"]), st.tuples(st.just("key"), key))[k])


def message(ctx, case):
    src, want = "", ""
    for p in case:
        match p:
            case ["text", t]:
                src += t
                want += t
            case ["$"]:
                src += "$$"
                want += "$"
            case ["key", k]:
                src += F"${k}$"
                want += MESSAGES.get(k) or k
    kinds = {p[0] for p in case}
    ctx.nt(len(kinds) > 1)
    ctx.label("translated", any(p[0] == "key" and p[1] in MESSAGES for p in case))
    ctx.eq(cp.get_message(src), want, F"message of {src!r}")


def values(ctx, case):
    i, tail = case
    path, v = PATHS[i % len(PATHS)]
    ctx.nt(len(path) > 2)
    ctx.eq(cp.get_values(*path), v, F"value at {path}")
    ctx.eq(cp.get_values2(*path), (v, 0), F"value at {path}")
    wrong = path[:-1] + [path[-1] + tail]
    d = CONFIG
    for k in wrong[:-1]:
        d = d[k]
    if wrong[-1] not in d:
        ctx.eq(cp.get_values(*wrong), None, F"no value at {wrong}")
        ctx.eq(cp.get_values2(*wrong), (".".join(wrong), -1), F"no value at {wrong}")
        deeper = [*wrong, "x"]
        ctx.eq(cp.get_values(*deeper), None, F"no value at {deeper}")


NEW = "new "
CODE = """
import sys, json, io, contextlib, logging
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
sys.path[:0] = [{repo!r}]
with contextlib.redirect_stdout(io.StringIO()):
    from src.DLMS_SPODES import config_parser as cp
    from src.DLMS_SPODES.types import cdt
print(json.dumps([cp.get_values("DLMS", "messages", {key!r}), cp.get_message("a$" + {key!r} + "$b$$"), cp.config == cp.tomllib.loads(open({path!r}, encoding="utf-8").read())]))
"""


def which(ctx, case):
    """the file config.toml of the working directory when there is one, else the one of the package"""
    own, key_, text = case
    ctx.nt(own is not None)
    default = os.path.join(REPO, "src/DLMS_SPODES/config.toml")
    with tempfile.TemporaryDirectory(dir=".") as d:
        if own:
            with open(os.path.join(d, "config.toml"), "w", encoding="utf-8") as f:
                with open(default, encoding="utf-8") as g_:
                    f.write(g_.read().replace("[DLMS.messages]", F"[DLMS.messages]\n{json.dumps(NEW + key_, ensure_ascii=False)} = {json.dumps(text, ensure_ascii=False)}", 1))
            key_ = NEW + key_
            want = [text, F"a{text or key_}b$", True]
            path = os.path.abspath(os.path.join(d, "config.toml"))
        else:
            with open(default, "rb") as f:
                t = tomllib.load(f).get("DLMS", {}).get("messages", {}).get(key_)
            want = [t, F"a{t or key_}b$", True]
            path = default
        r = subprocess.run([sys.executable, "-c", CODE.format(repo=REPO, key=key_, path=path)], cwd=d, capture_output=True, text=True, timeout=120)
        ctx.eq(r.returncode, 0, F"import with {'own' if own else 'default'} configuration: {r.stderr[-300:]}")
        ctx.eq(json.loads(r.stdout.splitlines()[-1]), want, "message of the configuration in use")


word = st.text(st.sampled_from("abcxyzйцу_"), min_size=1, max_size=8)
PROP = Prop("C26", rule="messages composed of text, doubled dollars and keys known and unknown; every path of the configuration and paths next to it; the package loaded in a directory with and without its own configuration; "
            "non-trivial: several kinds of parts",
            facets=[
                Facet("message", st.lists(part.map(list), max_size=8), message, quick=1500, thorough=15000),
                Facet("values", st.tuples(st.integers(0, len(PATHS) * 3), st.text(st.sampled_from("abc_-1"), min_size=1, max_size=3)), values, quick=800, thorough=8000),
                Facet("which", st.tuples(st.booleans(), st.one_of(st.just("or"), word), st.text(st.sampled_from("abcйцу $"), max_size=6)), which, quick=6, thorough=60),
            ])
