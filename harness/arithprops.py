"""Shared pieces of the properties decided on arithmetic traces."""
from __future__ import annotations

import copy
import json
import random
from collections import Counter

from . import arithlab as al
from . import tlc
from .enc import NULL

TRACE = "TraceArith"


PAIR_INV = ("Consistent", "Commutes", "RestrictFirst", "SelfZero", "WhereTrue")
ONE_INV = ("ReduceOrder", "AccLast", "RollOne", "RollStep", "RollShift")


def models(tier, pairs, invs):
    """Laws of the definitions, over all (pairs of) small patches."""
    if pairs:
        return [dict(module="ArithMC", constants=dict(MaxA=1, Pairs="TRUE", Emit="FALSE"), invariants=invs, timeout=800)]
    return [dict(module="ArithMC", constants=dict(MaxA=2 if tier == "quick" else 3, Pairs="FALSE", Emit="FALSE"), invariants=invs, timeout=800)]


def behaviours(tier, seed, scratch, pairs):
    b = tlc.generate("ArithMC", scratch, num=8, depth=2, seed=seed,
                     constants=dict(MaxA=2, Pairs="TRUE" if pairs else "FALSE", Emit="TRUE"), invariants=("EmitInv",))
    b = [x for _, x in sorted({json.dumps(x, sort_keys=True): x for x in b}.items())]
    random.Random(f"{seed}").shuffle(b)
    return b[:1500 if tier == "quick" else 50000]


def stats(traces):
    c = Counter()
    for tr in traces:
        for e in tr["ev"]:
            c[e["o"]["op"] + (":" + e["o"]["f"] if "f" in e["o"] else "") + (":" + e["err"] if e["err"] else "")] += 1
    return {"operations": dict(sorted(c.items()))}


def canaries(traces, ops):
    out = []
    for op in ops:
        for tr in traces:
            hit = None
            for n, e in enumerate(tr["ev"]):
                if e["o"]["op"] != op or e["err"]:
                    continue
                obs = e["outs"][0] if op == "cat" and e["outs"] else e["obs"]
                if [x for x in obs["data"] if x != NULL]:
                    hit = n
                    break
            if hit is None:
                continue
            c = copy.deepcopy(tr)
            e = c["ev"][hit]
            d = (e["outs"][0] if op == "cat" else e["obs"])["data"]
            k = next(i for i, x in enumerate(d) if x != NULL)
            d[k] += 7
            c["ev"] = c["ev"][: hit + 1]
            out.append(c)
            break
    return out
