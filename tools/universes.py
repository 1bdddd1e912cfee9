"""Finite universes of keys and entries over which TLC explores the specs.

Curated universes cover the structural corner cases (prefix chains, keys that
end inside extensions, slots 0 and 15, full-length keys, encodings around 32
bytes); random ones derive from the seed.
"""
import random

VAL_LENS = [1, 1, 1, 2, 3, 4, 20, 26, 27, 28, 29, 30, 31, 32, 33, 34, 54, 55, 56, 57, 64, 100,
            255, 256, 257, 300]


def value(rng, n=None):
    n = n or rng.choice(VAL_LENS)
    b = [rng.randrange(256) for _ in range(n)]
    if n == 1:
        b = [rng.choice([0, 1, 5, 127, 128, 129, 200, 255])]
    return {"kind": "v", "b": b}


def hidden(rng):
    if rng.random() < .04:
        return {"kind": "h", "b": [rng.choice([0, 255])] * 32}
    return {"kind": "h", "b": [rng.randrange(256) for _ in range(32)]}


def akin(rng, e):
    """An entry that is easily taken for the given one."""
    b = list(e["b"])
    i = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
    how = rng.randrange(4)
    if e["kind"] == "h" or how < 2:
        b[i] ^= 1 << rng.randrange(8)
    elif how == 2:
        b.append(rng.choice([0, b[-1]]))
    else:
        b.insert(0, 0)
    return {"kind": e["kind"], "b": b}


def probes_for(rng, keys, cap=14):
    """Keys in and around the universe."""
    ps = []
    for k in keys:
        ps.append(k)
    extra = [[]]
    for k in keys:
        for n in range(len(k)):
            if len(k) <= 8 or n in (0, 1, len(k) - 1, len(k) // 2):
                extra.append(k[:n])
        if len(k) < 64:
            extra.append(k + [0])
            extra.append(k + [rng.randrange(16)])
            extra.append(k + [15])
        if k:
            extra.append(k[:-1] + [(k[-1] + 1) % 16])
            extra.append([(k[0] + 1) % 16] + k[1:])
            i = rng.randrange(len(k))
            extra.append(k[:i] + [(k[i] + 8) % 16] + k[i + 1:])
            extra.append([0] + k[:63])
    rng.shuffle(extra)
    for k in extra:
        if k not in ps:
            ps.append(k)
    return ps[:max(cap, len(keys))]


CURATED = [
    [[], [1], [1, 2], [1, 2, 3], [1, 2, 3, 4]],
    [[], [0], [0, 0], [0, 0, 0], [15]],
    [[1, 2, 3, 4], [1, 2, 3, 5], [1, 2], [1, 2, 3], [7]],
    [[1, 2, 3, 4], [1, 2, 3, 5], [1], [], [1, 3]],
    [[0, 1], [1, 0], [15, 15], [15, 0], [0, 15]],
    [[0], [15], [7], [8], []],
    [[1, 2, 3, 4, 5, 6], [1, 2, 3, 4, 5, 7], [1, 2, 3, 4], [1, 2, 3, 4, 5], [1, 2, 9]],
    [[1, 1], [1, 2], [1, 3], [2, 1], [2, 2]],
    [[1, 1, 1], [1, 1, 2], [1, 2, 1], [1], [1, 1]],
    [[5, 5, 5, 5], [5, 5, 5, 6], [5, 5, 6, 6], [5, 6, 6, 6], [6, 6, 6, 6]],
    [[0, 0, 0, 1], [0, 0, 0], [0, 0, 1], [0], [0, 0, 0, 0, 0]],
    [[2] * 64, [2] * 63 + [3], [2] * 32 + [9] * 32, [3] * 64, [2] * 63],
    [[0] * 64, [0] * 63 + [1], [0] * 62 + [1, 0], [15] * 64, [0] * 63],
    [[0] * 64, [0], [0, 0], [15] * 63, [15] * 64],
    [[1, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3, 4, 5, 6, 7], [1, 2, 3, 4], [9], [1, 2, 3, 4, 9]],
    [[4], [4, 0], [4, 0, 0], [4, 15], [4, 15, 15]],
    [[], [10] * 64, [10], [10] * 63, [3] * 64],
    [[0], [0] * 64, [0] * 33, [0] * 32, []],
]


def rand_keys(rng, n):
    style = rng.randrange(7)
    ks = []
    while len(ks) < n:
        if style == 0:      # short over a tiny alphabet: dense prefixes
            a = rng.sample([0, 1, 2, 7, 8, 14, 15], 2)
            k = [rng.choice(a) for _ in range(rng.randrange(5))]
        elif style == 1:    # stems and tails
            if not ks or rng.random() < .3:
                k = [rng.randrange(16) for _ in range(rng.randrange(7))]
            else:
                b = rng.choice(ks)
                k = b[:rng.randrange(len(b) + 1)] + [rng.randrange(16) for _ in range(rng.randrange(4))]
        elif style == 2:    # full-length keys sharing prefixes
            if not ks:
                k = [rng.randrange(16) for _ in range(64)]
            else:
                b = rng.choice(ks)
                c = rng.choice([0, 1, 31, 32, 61, 62, 63])
                k = b[:c] + [rng.randrange(16) for _ in range(64 - c)]
                k = k[:64]
        elif style == 3:    # long keys of mixed length
            if not ks:
                k = [rng.randrange(16) for _ in range(rng.choice([20, 40, 63, 64]))]
            else:
                b = rng.choice(ks)
                k = b[:rng.randrange(len(b) + 1)] + [rng.randrange(16) for _ in range(rng.choice([0, 1, 2, 10]))]
                k = k[:64]
        elif style == 6:    # the shortest and the longest keys side by side
            n = rng.choice([0, 1, 2, 32, 62, 63, 64])
            b = rng.choice(ks) if ks and rng.random() < .7 else []
            k = (b + [rng.choice([0, 1, 15]) for _ in range(64)])[:n]
        elif style == 4:    # leading zeros
            k = [0] * rng.randrange(4) + [rng.choice([0, 1, 15]) for _ in range(rng.randrange(3))]
        else:               # one nibble apart
            if not ks:
                k = [rng.randrange(16) for _ in range(rng.randrange(1, 6))]
            else:
                b = list(rng.choice(ks))
                if b:
                    b[rng.randrange(len(b))] = rng.randrange(16)
                k = b
        if k not in ks:
            ks.append(k)
    return ks


def make(seed, count, nkeys, nvals, nhash=0, salt="", cap=14, curated=True, big=False):
    """count universes of nkeys keys with nvals value entries and nhash hidden entries."""
    rng = random.Random("%s/%s" % (seed, salt))
    us = []
    if curated:
        for ks in CURATED[:count]:
            us.append(list(ks[:nkeys]))
    while len(us) < count:
        us.append(rand_keys(rng, nkeys))
    out = []
    for ks in us[:count]:
        ks = list(ks)
        rng.shuffle(ks)
        style = rng.choice([1, 1, 2, 3]) if big else rng.randrange(4)
        if rng.random() < .12:
            vals = [value(rng, rng.randrange(129, 400)) for _ in range(nvals)]
        elif style == 0:
            vals = [value(rng, 1) for _ in range(nvals)]
        elif style == 1:
            vals = [value(rng, rng.choice([32, 33, 40, 55, 56, 60])) for _ in range(nvals)]
        elif style == 2:
            vals = [value(rng, rng.choice([24, 26, 27, 28, 29, 30, 31])) for _ in range(nvals)]
        else:
            vals = [value(rng) for _ in range(nvals)]
        ents = []
        for v in vals:
            while v in ents:
                v = value(rng)
            ents.append(v)
        if nvals > 1 and rng.random() < .3:
            ents[1] = akin(rng, ents[0])
            while ents.count(ents[1]) > 1:
                ents[1] = value(rng)
        for i in range(nhash):
            ents.append(akin(rng, ents[-1]) if i and rng.random() < .7 else hidden(rng))
        out.append({"keys": ks, "ents": ents, "probes": probes_for(rng, ks, cap)})
    return out


def ladder(seed, nvals, nhash=0, cap=14):
    """A small universe for every length of keys, with values of every length up to 128."""
    rng = random.Random("%s/ladder%d%d" % (seed, nvals, nhash))
    out = []
    for n in range(1, 65):
        a = [rng.randrange(16) for _ in range(n)]
        b = a[:-1] + [(a[-1] + rng.randrange(1, 16)) % 16]
        c = a[:rng.randrange(n)]
        c += [rng.randrange(16) for _ in range(rng.randrange(65 - len(c)))]
        ks = [a, b] + ([c] if c not in (a, b) else [])
        lens = [n, 64 + n] if nvals == 2 else [rng.choice([n, 64 + n])]
        ents = [value(rng, m) for m in lens] + [hidden(rng) for _ in range(nhash)]
        out.append({"keys": ks, "ents": ents, "probes": probes_for(rng, ks, cap)})
    return out


def cuts(seed, every, nhash=0, cap=12):
    """Two keys with a long common part and a third one that leaves it after every number of
    steps, or after those close to the ends and two others."""
    rng = random.Random("%s/cuts%d" % (seed, nhash))
    out = []
    for n in range(2, 65):
        ps = set(range(n - 1))
        if not every:
            ps &= {0, 1, 2, n - 4, n - 3, n - 2, rng.randrange(n), rng.randrange(n)}
        for p in sorted(ps):
            a = [rng.randrange(16) for _ in range(n)]
            b = a[:-1] + [(a[-1] + rng.randrange(1, 16)) % 16]
            c = a[:p]
            if rng.random() < .75 or not p:
                c = c + [(a[p] + rng.randrange(1, 16)) % 16]
                c += [rng.randrange(16) for _ in range(rng.choice([0, n - p - 1, rng.randrange(64 - p)]))]
            ks = [a, b, c]
            ents = [hidden(rng) if nhash and rng.random() < .3 else value(rng, rng.choice([1, 20, 33, 60]))]
            out.append({"keys": ks, "ents": ents, "probes": probes_for(rng, ks, cap)})
    return out


def surrounded(seed, count, nkeys, nvals, nhash=0, cap=14, most=40):
    """Universes with entries that are always there around the keys that vary: branches with
    nearly all slots taken, and keys below a long chain of branches."""
    rng = random.Random("%s/rest%d%d%d" % (seed, nkeys, nvals, nhash))
    nib = lambda n: [rng.randrange(16) for _ in range(n)]
    out = []
    for c in range(count):
        pool, rest = [], []
        if c % 2:           # wide, around one slot, or around both ends
            p = nib(rng.choice([0, 0, 1, 3, 20]))
            tail = nib(rng.choice([0, 0, 1, 4, 40]))
            slots = list(range(16))
            rng.shuffle(slots)
            if rng.random() < .3:
                slots.sort(key=lambda i: i in (0, 15))
            free = rng.choice([1, 1, 2, 3])
            for i in slots[free:]:
                rest.append(p + [i] + tail)
            pool = [p + [i] + tail for i in slots[:free]]
            more = [p, p + [slots[-1]] + tail + nib(1), p + [slots[-2]] + nib(len(tail)),
                    p + [slots[-3]] + tail[:-1], p[:-1]]
        else:               # deep
            n = rng.choice([8, 12, 20, most])
            step = rng.choice([1, 1, 2, 3])
            a = nib(min(64, n * step))
            for i in range(0, len(a) - 1, step):
                q = a[:i]
                if i % 3 or not i or rng.random() < .7:
                    q = q + [(a[i] + rng.randrange(1, 16)) % 16] + nib(rng.choice([0, 0, 1, 20]))[:63 - i]
                rest.append(q)
            pool = [a]
            m = rng.randrange(len(a))
            more = [a[:-1] + [(a[-1] + 1) % 16], a[:m] + [(a[m] + 7) % 16], a[:-2], a[:m] + nib(2), a[:1]]
        rng.shuffle(more)
        rest = [k for i, k in enumerate(rest) if k not in rest[:i]]
        for k in more + [nib(3), nib(2), nib(5)]:
            k = k[:64]
            if k not in pool and k not in rest:
                pool.append(k)
        ks = pool[:nkeys]
        rng.shuffle(ks)
        style = rng.choice([1, 4, 33, 0])
        ents = []
        while len(ents) < nvals:
            v = value(rng, style or rng.choice([1, 20, 30, 32, 60]))
            if v not in ents:
                ents.append(v)
        ents += [hidden(rng) for _ in range(nhash)]
        es = [{"k": k, "e": ents[0] if rng.random() < .7 else value(rng, style or rng.choice([1, 2, 31, 40]))}
              for k in rest]
        if nhash:           # hidden ones, where nothing lies below
            for e in es:
                if rng.random() < .2 and not any(k[:len(e["k"])] == e["k"] for k in ks + rest if k != e["k"]):
                    e["e"] = hidden(rng)
        out.append({"keys": ks, "ents": ents, "probes": probes_for(rng, ks + rng.sample(rest, 3), cap),
                    "rest": es})
    return out


def requests_for(rng, u, n):
    """Keys to ask for: of the universe, prefixes, extensions, strangers."""
    rs = []
    pool = list(u["probes"])
    rng.shuffle(pool)
    mine = list(u["keys"])
    rng.shuffle(mine)
    for k in mine[:(n + 1) // 2] + pool + mine:
        if k not in rs:
            rs.append(k)
    return rs[:n]


def with_requests(us, seed, n, salt=""):
    rng = random.Random("%s/req/%s" % (seed, salt))
    for u in us:
        u["requests"] = requests_for(rng, u, n)
    return us


# ---------------------------------------------------------------- big families
def family(rng, sizes, vl, vary, full, plen=0, slen=0, hid=False, drops=2, marks=3, inner=.3):
    """A family of ScaleMC with the given numbers of nibbles for its levels."""
    depth = len(sizes)
    alpha = [sorted(rng.sample(range(16), n)) for n in sizes]
    nib = lambda n: [rng.randrange(16) for _ in range(n)]
    byt = lambda n: [rng.randrange(256) for _ in range(n)]
    f = {"alpha": alpha, "prefix": nib(plen), "suffix": nib(slen), "vb": rng.randrange(256), "vl": vl,
         "vary": min(vary, depth), "hid": int(hid), "h": byt(32), "full": int(full),
         "inner": [byt(rng.choice([1, 20, 40])) if rng.random() < inner else [] for _ in sizes],
         "drops": [], "marks": [], "probes": [], "requests": []}
    if hid:
        f["vary"] = 0
    left = list(sizes)
    for _ in range(0 if hid else drops):
        lev = rng.choice([i for i in range(depth) if left[i] > 2] or [None])
        if lev is None:
            break
        n = rng.choice([n for n in alpha[lev] if {"lev": lev + 1, "nib": n} not in f["drops"]])
        f["drops"].append({"lev": lev + 1, "nib": n})
        left[lev] -= 1
    path = lambda: [rng.choice(a) for a in alpha]
    key = lambda: f["prefix"] + path() + f["suffix"]

    def near():
        k = key()
        style = rng.randrange(5)
        if style == 0:
            return k[:rng.randrange(len(k))]
        if style == 1:
            return (k + nib(rng.randrange(1, 4)))[:64]
        if style == 2:
            k[rng.randrange(len(k))] = rng.randrange(16)
            return k
        if style == 3:
            i = rng.randrange(len(k))
            return (k[:i] + nib(rng.randrange(1, 5)))[:64]
        return f["prefix"] + path()[:rng.randrange(depth)]

    for i in range(0 if hid else marks):
        k = key() if i % 3 != 2 else near()
        f["marks"].append({"k": k, "op": "del" if i % 3 == 1 else "put", "v": byt(rng.choice([1, 2, 30, 33, 60]))})
    f["probes"] = [key(), key()] + [near() for _ in range(4)] + [x["k"] for x in f["marks"]]
    f["requests"] = [[], [key()], [key(), key()], [near(), key()], [near()], [key() for _ in range(rng.choice([3, 5, 20]))]]
    return f


def families(seed, small, medium, sizes_big):
    rng = random.Random("%s/families" % seed)
    out = []

    def dims(lo, hi, maxdepth):
        while True:
            s = [rng.choice([2, 2, 3, 4, 8, 15, 16, 16]) for _ in range(rng.randrange(1, maxdepth + 1))]
            n = 1
            for x in s:
                n *= x
            if lo <= n <= hi:
                return s

    lens = [1, 1, 2, 3, 8, 20, 27, 30, 31, 32, 33, 54, 55, 56, 60]

    def one(s, full, hid, marks=3, drops=2):
        plen = rng.choice([0, 0, 1, 2, 3, 10, 31, 32, 64 - len(s)])
        slen = rng.choice([0, 0, 1, 2, 5, 64 - len(s) - plen])
        slen = max(0, min(slen, 64 - len(s) - plen))
        return family(rng, s, rng.choice(lens), rng.randrange(3), full, plen, slen, hid, marks=marks, drops=drops)

    for i in range(small):
        out.append(one(dims(2, 40, 4), True, i % 5 == 4))
    for n in range(2, 17):
        out.append(one([n], True, n % 3 == 0))
    for vl in (55, 56, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 70000):
        big = vl > 5000
        out.append(family(rng, [2], vl, rng.randrange(2), True, rng.randrange(3), rng.randrange(3),
                          marks=0 if big else 2, drops=0, inner=.5 if not big else 0))
        if big:
            out[-1]["probes"], out[-1]["requests"] = out[-1]["probes"][:2], out[-1]["requests"][:2]
    for i in range(medium):
        out.append(one(dims(100, 1500, 5), False, i % 6 == 5))
    for s in sizes_big:
        out.append(one(list(s), False, False, marks=3, drops=1))
    return out


# --------------------------------------------------------------- typed values
WIDTHS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "U128": 16, "U256": 32, "U512": 64}


def typed_input(rng, ty):
    if ty in ("vec", "slice"):
        n = rng.choice([1, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 300])
        b = [rng.randrange(256) for _ in range(n)]
        z = rng.choice([0, 0, 1, n // 2, n])
        b[:z] = [0] * z
        if rng.random() < .3:
            b.reverse()
        return {"ty": ty, "n": b}
    if ty == "H256":
        b = [rng.randrange(256) for _ in range(32)]
        z = rng.choice([0, 0, 1, 31])
        b[:z] = [0] * z
        return {"ty": ty, "n": b}
    w = WIDTHS[ty]
    style = rng.randrange(8)
    if style == 0:
        n = 0
    elif style == 1:
        n = 1
    elif style == 2:
        n = 256 ** w - 1
    elif style == 3:
        n = 1 << rng.randrange(8 * w)
    elif style == 4:
        n = rng.randrange(256 ** w) >> (8 * rng.randrange(w))
    elif style == 5:
        n = rng.randrange(1, 256) << (8 * rng.randrange(w))
    else:
        n = rng.randrange(256 ** w)
    return {"ty": ty, "n": list(n.to_bytes(w, "big").lstrip(b"\0"))}


def typed_edges(rng):
    """Every length around the limits and every power of 256 of every width."""
    ins = []
    for ty in ("vec", "slice"):
        for n in list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000]:
            ins.append({"ty": ty, "n": [rng.randrange(256) for _ in range(n)]})
        for n in (1, 2, 20, 31, 32, 33, 64):
            ins.append({"ty": ty, "n": [0] * n})
            ins.append({"ty": ty, "n": [255] * n})
    for b in (0, 255):
        ins.append({"ty": "H256", "n": [b] * 32})
    for ty, w in WIDTHS.items():
        ns = {0, 256 ** w - 1}
        for i in range(w):
            ns |= {256 ** i, 128 * 256 ** i, 256 ** i - 1, rng.randrange(1, 256) * 256 ** i}
        ins += [{"ty": ty, "n": list(n.to_bytes(w, "big").lstrip(b"\0"))} for n in sorted(ns)]
    return ins


def typed(seed, count, nkeys, nins):
    """Universes of ValueMC: every type occurs equally often."""
    rng = random.Random("%s/typed" % seed)
    types = list(WIDTHS) + ["vec", "slice", "H256"]
    out, t = [], 0
    for i in range(count):
        ks = list(CURATED[i][:nkeys]) if i < len(CURATED) else rand_keys(rng, nkeys)
        ins = []
        while len(ins) < nins:
            v = typed_input(rng, types[t % len(types)])
            if v not in ins:
                ins.append(v)
                t += 1
        out.append({"keys": ks, "ins": ins})
    edges = typed_edges(rng)
    rng.shuffle(edges)
    for i in range(0, len(edges), 4):
        out.append({"keys": rand_keys(rng, 1)[:1], "ins": edges[i:i + 4]})
    return out


def keyed(seed, count, nins, nvals):
    """Universes of KeyedMC: related numbers in all widths that hold them."""
    rng = random.Random("%s/keyed" % seed)
    widths = {ty: min(w, 32) for ty, w in WIDTHS.items()}
    out = []
    for i in range(count):
        w = rng.choice(list(widths.values()))
        n = rng.choice([0, 1, 15, 16, rng.randrange(256 ** w), 256 ** w - 1, 1 << rng.randrange(8 * w),
                        rng.randrange(16) << (4 * rng.randrange(2 * w))])
        near = [n, n, n // 16, n // 256, n * 16, n * 16 + rng.randrange(16), n * 256 + 1, n + 1, n ^ 1,
                n ^ 16, 0, rng.randrange(256 ** w)]
        ins = []
        while len(ins) < nins:
            m = n if len(ins) < 2 else rng.choice(near)
            fits = [ty for ty, v in widths.items() if m < 256 ** v]
            if not fits:
                continue
            if len(ins) == nins - 1:
                k = [int(d, 16) for d in "%x" % m] if m else []
                if len(k) < 64 and rng.random() < .5:
                    k = [0] + k
                v = {"ty": "nibbles", "n": k}
            else:
                v = {"ty": rng.choice(fits), "n": list(m.to_bytes(32, "big").lstrip(b"\0"))}
            if v not in ins:
                ins.append(v)
        vals, lens = [], rng.sample([1, 2, 30, 32, 33, 60], nvals)
        for l in lens:
            vals.append(value(rng, l)["b"])
        out.append({"ins": ins, "vals": vals})
    return out


# ---------------------------------------------------------------------- keys
def rand_key(rng, n=None):
    n = rng.choice([3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 40, 61, 62, 63, 64]) if n is None else n
    style = rng.randrange(5)
    if style == 0:
        return [0] * n
    if style == 1:
        return [15] * n
    k = [rng.randrange(16) for _ in range(n)]
    if style == 2:
        z = rng.randrange(n + 1)
        k[:z] = [0] * z
    if style == 3:
        z = rng.randrange(n + 1)
        k[n - z:] = [0] * z
    return k


def key_inputs(seed, bound, bound2, nseeds, nothers):
    """Inputs of NibMC."""
    rng = random.Random("%s/keys" % seed)
    seeds = [[0] * 64, [15] * 64, [0] * 63, [15] * 63, [0] * 62 + [1], [1] + [0] * 63]
    while len(seeds) < nseeds:
        k = rand_key(rng)
        if k not in seeds:
            seeds.append(k)
    ladder = [[rng.randrange(16) for _ in range(n)] for n in range(65)]
    others = []
    for k in seeds:
        c = rng.randrange(len(k) + 1)
        others.append(k[:c])
        o = list(k)
        o[rng.randrange(len(o))] ^= 1 << rng.randrange(4)
        others.append(o)
        others.append(k[c:])
    rng.shuffle(others)
    others = [[0] * 64, [15] * 64] + others[:nothers]
    alphabet = [0, 15, rng.randrange(1, 15)]
    return {"alphabet": alphabet, "bound": bound, "bound2": bound2, "seeds": seeds, "ladder": ladder,
            "others": others}


def conv_inputs(seed, bound, nkeys, ntexts, nbytes, bytes_bound):
    """Inputs of ConvMC."""
    rng = random.Random("%s/conv" % seed)
    keys = [[0] * 64, [15] * 64, [0] * 63 + [1], [1] + [0] * 63, [0] * 63, [8] + [0] * 31]
    for n in range(65):
        keys.append(rand_key(rng, n))
        keys.append([rng.randrange(1, 16)] + rand_key(rng, n - 1) if n else [])
    while len(keys) < nkeys:
        keys.append(rand_key(rng))
    hexd = "0123456789abcdefABCDEF"
    texts = ["", "0x", "0", "0x0", "00", "x", "0X1", "0x0x1", "1g", "g1", " 1", "1 ", "0x 1", "+1", "-1",
             "1_0", "0x-1", "0xABC", "0xabc", "aBcD", "0x" + "0" * 64, "0" * 64, "f" * 64, "0x" + "F" * 64,
             "0" * 129, "f" * 129, "0x" + "1" * 129, "0" * 200, "0x" + "0" * 63 + "g", "\x00", "0x1\n",
             "0x" + "0" * 130, "00x1", "0x00000000000000000", "000000000000000000123"]
    while len(texts) < ntexts:
        n = len(texts) % 65 or rng.choice([1, 2, 3, 5, 16, 31, 32, 33, 63, 64])
        z = rng.choice([0, 0, 1, 2, n // 2, n])
        t = "0" * min(z, n) + "".join(rng.choice(hexd) for _ in range(n - min(z, n)))
        if rng.random() < .5:
            t = "0x" + t
        if rng.random() < .2:
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice("gGxX _-+./:@`{\x7f\xe9\x00") + t[i:]
        d = t[2:] if t.startswith("0x") else t
        # text of 65 to 128 digits is accepted but exceeds the documented
        # length of a key; not relied on
        if len(d) <= 64 or len(d) > 128:
            texts.append(t)
    bs = [[]] + [[b] for b in (0, 1, 15, 16, 127, 128, 255)] + [[0] * 32, [255] * 32, [0] * 34, [255] * 34,
                                                               [0] * 64, [1] * 65, [7] * 100]
    while len(bs) < nbytes:
        n = len(bs) % 33 or rng.choice([1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 34, 40, 65])
        b = [rng.randrange(256) for _ in range(n)]
        z = rng.choice([0, 0, 1, n // 2, n])
        b[:z] = [0] * z
        if rng.random() < .3:
            b.reverse()
        bs.append(b)
    hs = [b for b in bs if len(b) == 32]
    while len(hs) < 20:
        hs.append([0] * rng.randrange(3) + [rng.randrange(256) for _ in range(32)])
        hs[-1] = hs[-1][:32]
    enc = []
    for i in range(nbytes):
        n = i % 36 or rng.choice([1, 2, 3, 16, 31, 32, 33, 34, 35, 40, 64, 65, 66])
        b = [rng.randrange(256) for _ in range(n)]
        b[0] = rng.choice([0, 0x20, 0x10 + rng.randrange(16), 0x30 + rng.randrange(16), rng.randrange(256)])
        enc.append(b)
    return {"alphabet": sorted({0, 15, 1, 8, rng.randrange(16)}), "bound": bound, "keys": keys,
            "texts": [[ord(c) for c in t] for t in texts], "bytes": bs, "hashes": hs, "encoded": enc,
            "bytes_alphabet": [0, 255, 16, 1, rng.randrange(256)], "bytes_bound": bytes_bound}


# ------------------------------------------------------------------- threads
CONC_KEYS = [
    [[1, 1, 1], [1, 2, 2], [2, 3, 3], [2, 3, 4]],
    [[0, 1], [0], [15, 15], [15, 15, 15]],
    [[3] * 64, [3] * 63 + [4], [9] * 64, [9] * 40],
    [[5, 0, 0, 1], [5, 0, 0, 2], [7, 0, 0, 1], [7]],
]


def conc_ops(n):
    """The operations of a thread on n keys with two entries each."""
    z = dict(i=1, j=0)
    ops = [dict(z, op=o) for o in ("hash", "hashbase", "clone", "items", "eq", "save", "savebase")]
    ops += [dict(z, op="sub", i=i) for i in (1, n)]
    ops += [dict(z, op="get", i=i) for i in (1, n)]
    ops += [dict(z, op="hashkid", i=i) for i in (1, n)]
    ops += [dict(z, op="ins", i=i, j=j) for i in range(1, n + 1) for j in (1, 2)]
    ops += [dict(z, op="del", i=i) for i in range(1, n + 1)]
    return ops


def conc(seed, short, nlong, nthree, length):
    """Cases of ConcMC: programs for two and three threads."""
    rng = random.Random("%s/conc" % seed)
    univ = []
    for ks in CONC_KEYS:
        a, b = value(rng, rng.choice([33, 40, 60])), value(rng, rng.choice([32, 45, 100]))
        univ.append({"keys": ks, "ents": [a, b]})
    cases = []

    def case(progs):
        u = rng.randrange(len(univ))
        base = [rng.choice([0, 1, 2]) for _ in univ[u]["keys"]]
        cases.append({"u": u + 1, "warm": rng.randrange(2), "base": base, "progs": progs})

    ops = conc_ops(4)
    pick = lambda: dict(rng.choice([o for o in ops if o["op"] == rng.choice(
        ["hash", "hash", "hashbase", "clone", "items", "sub", "get", "ins", "ins", "del", "eq", "save",
         "savebase", "hashkid"])] or ops))
    if short:
        for a in ops:
            for b in ops:
                case([[a], [b]])
    # what the wrong designs stumble over
    op = lambda o, i=1, j=0: dict(op=o, i=i, j=j)
    for a, b in ((["hash"], ["hash"]), (["eq"], ["hashbase"]), (["ins", "hash"], ["hash"]),
                 (["ins", "eq"], ["hash", "get"]), (["del", "save"], ["savebase", "clone"])):
        case([[op(o, 1, 2 * (o == "ins")) for o in p] for p in (a, b)])
        cases[-1].update(warm=0, base=[1] * len(univ[cases[-1]["u"] - 1]["keys"]))
    for _ in range(nlong):
        case([[pick() for _ in range(length)] for _ in range(2)])
    for _ in range(nthree):
        case([[pick() for _ in range(2)] for _ in range(3)])
    return {"univ": univ, "cases": cases}
