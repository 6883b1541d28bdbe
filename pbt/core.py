"""Harness: facets = (strategy of JSON-able cases, check function); Hypothesis generates and shrinks the cases.

Outcomes: exit 0 (held), exit 1 + 'VIOLATION property=<id> replay=<path>', exit 3 (harness error).
"""
from __future__ import annotations
import copy
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any, Callable

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(AssertionError):
    pass


class Ctx:
    """what one case reports to the harness"""

    def __init__(self, run: "Run", facet: "Facet", probing: bool = False):
        self._run, self._facet, self._probing = run, facet, probing
        self.nontrivial_flag = False
        self.labels: set[str] = set()

    def nt(self, cond: bool = True):
        if cond:
            self.nontrivial_flag = True

    def label(self, name: str, cond: bool = True):
        if cond:
            self.labels.add(name)

    def fail(self, msg: str):
        raise Violation(msg)

    def check(self, cond: Any, msg: Any = ""):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, msg: str = ""):
        if not (got == want):
            raise Violation(F"{msg}: got {got!r}, expected {want!r}")

    def raises(self, fn: Callable, msg: str, exc=Exception):
        try:
            r = fn()
        except exc as e:
            if isinstance(e, (RecursionError, MemoryError)):
                raise Violation(F"{msg}: resource failure {e!r}")
            return e
        raise Violation(F"{msg}: accepted, got {short(r)}")

    def known(self, fid: str) -> bool:
        """True if the case belongs to a recorded finding (then it is excluded, and counted)"""
        if self._probing or fid not in self._run.findings:
            return False
        self._run.excluded[fid] = self._run.excluded.get(fid, 0) + 1
        return True


def short(v, n=300) -> str:
    try:
        s = repr(v)
    except Exception as e:
        s = F"<repr failed {e!r}>"
    return s if len(s) <= n else s[:n] + "..."


@dataclass
class Facet:
    name: str
    strategy: Any
    fn: Callable[[Ctx, Any], None]
    quick: int = 500
    thorough: int = 0
    examples: list = field(default_factory=list)
    """fixed cases always run first"""
    exhaustive: Callable | None = None
    """iterator of cases, run completely instead of the strategy"""

    def budget(self, tier: str) -> int:
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n = self.quick if tier == "quick" else (self.thorough or self.quick * 15)
        return max(1, int(n * scale))


@dataclass
class Prop:
    id: str
    rule: str
    facets: list[Facet]
    assumptions: list[str] = field(default_factory=list)


def load_findings(pid: str) -> dict[str, dict]:
    ret = {}
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid:
                    ret[d["id"]] = d
    return ret


def independent_cases() -> None:
    """By default hypothesis derives up to five of six cases from the one before (it repeats parts of it).
    This repetition is kept for every fifth case only, so that most cases are drawn independently."""
    from hypothesis.internal.conjecture import engine
    cls = engine.ConjectureRunner
    orig = getattr(cls, "generate_mutations_from", None)
    if orig is None or getattr(orig, "sparse", False):
        return

    def generate_mutations_from(self, data):
        self.verif_count = getattr(self, "verif_count", 0) + 1
        if self.verif_count % 5 == 0:
            orig(self, data)
    generate_mutations_from.sparse = True
    cls.generate_mutations_from = generate_mutations_from


class Run:
    def __init__(self, prop: Prop, tier: str, seed: int):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings = load_findings(prop.id)
        self.excluded: dict[str, int] = {}
        self.evaluations = 0
        self.nontrivial: set[bytes] = set()
        self.samples: list = []
        self.per_facet: dict[str, dict] = {}
        self.violation: tuple[str, Any, str] | None = None

    def one(self, facet: Facet, case, stat: dict) -> None:
        ctx = Ctx(self, facet)
        self.evaluations += 1
        stat["evaluations"] += 1
        try:
            facet.fn(ctx, copy.deepcopy(case))
        finally:
            for it in ctx.labels:
                stat["labels"][it] = stat["labels"].get(it, 0) + 1
            if ctx.nontrivial_flag:
                h = hashlib.blake2b((facet.name + json.dumps(case, sort_keys=True, default=str)).encode("utf-8", "surrogatepass"), digest_size=8).digest()
                if h not in self.nontrivial:
                    self.nontrivial.add(h)
                    stat["distinct_nontrivial"] += 1
                    if stat["sampled"] < 2:
                        stat["sampled"] += 1
                        s = json.dumps({"facet": facet.name, "case": case}, ensure_ascii=False, default=str)
                        self.samples.append(s if len(s) < 600 else s[:600] + "...")

    def run_facet(self, facet: Facet) -> bool:
        """True if held"""
        from hypothesis import given, settings, seed, HealthCheck, Phase
        import hypothesis.errors
        independent_cases()
        stat = self.per_facet[facet.name] = {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "sampled": 0}
        t0 = time.time()
        failures: list = []

        def wrapped(case):
            try:
                self.one(facet, case, stat)
            except hypothesis.errors.HypothesisException:
                raise
            except Exception:
                failures.append((case, traceback.format_exc()))
                raise
        try:
            for case in facet.examples:
                wrapped(case)
            if facet.exhaustive is not None:
                for case in facet.exhaustive():
                    wrapped(case)
                stat["exhaustive"] = True
            else:
                sub = int.from_bytes(hashlib.blake2b(F"{self.seed}:{self.prop.id}:{facet.name}".encode(), digest_size=6).digest(), "big")
                n = facet.budget(self.tier)
                test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                                phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                                print_blob=False, derandomize=False)(seed(sub)(given(facet.strategy)(wrapped)))
                test()
        except hypothesis.errors.Unsatisfiable:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) or not failures:
                raise
            case, tb = failures[-1]
            if isinstance(e, hypothesis.errors.HypothesisException):  # flaky: keep the first observed failure too
                tb += F"\n(hypothesis: {type(e).__name__}: {e})"
            self.violation = (facet.name, case, tb)
            return False
        finally:
            stat["wall_s"] = round(time.time() - t0, 2)
            stat.pop("sampled", None)
        return True

    def probe_known(self) -> None:
        for fid, d in self.findings.items():
            facet = next((f for f in self.prop.facets if f.name == d["facet"]), None)
            if facet is None:
                raise RuntimeError(F"finding {fid} names unknown facet {d['facet']}")
            try:
                facet.fn(Ctx(self, facet, probing=True), d["case"])
            except Exception:
                print(F"KNOWN-FINDING: property={self.prop.id} {d['what']} [{fid}]")
            else:
                print(F"note: recorded finding {fid} no longer fails")

    def evidence(self, wall: float) -> dict:
        return {
            "property": self.prop.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.nontrivial),
                "rule": self.prop.rule,
                "samples": self.samples[:40],
                "facets": self.per_facet,
                "excluded_by_known_finding": self.excluded,
            },
            "assumptions": self.prop.assumptions,
            "wall_s": round(wall, 2),
            "violations": 0 if self.violation is None else 1,
        }


def write_replay(pid: str, facet: str, case, tb: str) -> str:
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, F"{pid}-{facet}.json")
    with open(path, "w", encoding="utf-8", errors="surrogatepass") as f:
        json.dump({"property": pid, "facet": facet, "case": case, "failure": tb}, f, ensure_ascii=True, indent=1, default=str)
    return path
