"""The bounded instances of the specification (spec/MC.tla) behind each check."""
from vlib import Rec

# Abstract types: is it Copy, does it fit a machine word, its size (only equality of sizes matters).
T = {
    "A": Rec(copy=False, word=True, size=8),
    "B": Rec(copy=False, word=True, size=8),
    "N": Rec(copy=False, word=False, size=24),
    "M": Rec(copy=False, word=False, size=24),
    "C": Rec(copy=True, word=True, size=8),
    "E": Rec(copy=True, word=True, size=8),
    "K": Rec(copy=True, word=False, size=48),
}

# Concrete types (harness/src/types.rs) by kind; a "word" has exactly the size of usize.
SMALL_D = ["d8", "d1", "p8", "d6", "d2", "d3", "d8b", "d8a1"]
WORD_D = ["d8", "d8b", "p8", "d8a1"]
WIDE_D = ["d24", "d12", "p12", "d192", "d32", "d1536", "d24b"]
SMALL_C = ["c8", "c1", "c3", "c6", "cpad", "c4", "c8a2"]
WORD_C = ["c8", "c8b", "c8a2"]
WIDE_C = ["c48", "c12", "c192"]
TWIN = {"d8": "d8b", "d8b": "d8", "d24": "d24b", "d24b": "d24", "c8": "c8b", "c8b": "c8",
        "p8": "d8"}


def bindings(types, n, k0=0, words=False):
    """n bindings of the abstract types to concrete ones, of the right kinds and all distinct.

    words: the types called words must have the size of a word (needed for small values)."""
    out = []
    for k in range(k0, k0 + n):
        b = {}

        def pick(t, pool):
            c = next(x for x in pool[k % len(pool):] + pool if x not in b.values())
            b[t] = c

        def twin(t, of, pool):
            c = TWIN.get(b.get(of, ""))
            if c and c in pool and c not in b.values():
                b[t] = c
            else:
                pick(t, pool)

        d, c = (WORD_D, WORD_C) if words else (SMALL_D, SMALL_C)
        for t in sorted(types):
            if t == "A":
                pick(t, d)
            elif t == "B":
                twin(t, "A", d)
            elif t == "N":
                pick(t, WIDE_D)
            elif t == "M":
                pick(t, WIDE_D)
            elif t == "C":
                pick(t, WORD_C if "E" in types else c)
            elif t == "E":
                pick(t, WORD_C)
            elif t == "K":
                pick(t, WIDE_C)
        if "N" in b and "M" in b:
            del b["M"]
            twin("M", "N", WIDE_D)
        out.append(",".join("%s=%s" % x for x in sorted(b.items())))
    return out


def mc(slots, types, use, vals=(0, 1), max_len=2, max_view=1, mk_lens=(0, 1, 2), mk_hows=("type", "size", "list"),
       oob=False, wrong=False, huges=(), caps=("clone",), max_live=9, mk_all=True):
    return dict(SlotNames=set(slots.split()), TypeInfo={t: T[t] for t in types.split()}, Use=set(use.split()),
                Vals=set(vals), MaxLen=max_len, MaxView=max_view, MkLens=set(mk_lens), MkHows=set(mk_hows),
                Oob=oob, Wrong=wrong, Huges=set(huges), Caps=set(caps), MaxLive=max_live, MkAll=mk_all, Sim=False)
