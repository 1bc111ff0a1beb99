"""Keys with the same hash: the library locates the keys of a map through a 64 bits hash of their value, which different
keys can share.  Those of two (or more) 64 bits parts are found by inverting the hash of the last part.  Nothing else relies
on these formulas: if the library hashes in another way they are just keys like any other."""
M64 = (1 << 64) - 1
SEED, M, MIX = 0x2145654af87a5b6d, 0x880355f21e6d1965, 0x2127599bf4325c37
INV_M, INV_MIX = pow(M, -1, 1 << 64), pow(MIX, -1, 1 << 64)


def mix(h):
    h ^= h >> 23
    h = h * MIX & M64
    return h ^ (h >> 47)


def unmix(h):
    h ^= h >> 47
    h = h * INV_MIX & M64
    x = h
    for _ in range(3):
        x = h ^ (x >> 23)
    return x


def hash64(v):
    h = SEED ^ (8 * M & M64)
    return mix((h ^ mix(v)) * M & M64)


def unhash64(h):
    h = unmix(h) * INV_M & M64
    return unmix(h ^ SEED ^ (8 * M & M64))


def combine(r, h):
    return r ^ ((h + 0x9e3779b9 + (r << 6) + (r >> 2)) & M64)


def partner(a, b, a2):
    """b2 such that (a2, b2) has the hash of (a, b)"""
    r, r2 = hash64(a), hash64(a2)
    target = combine(r, hash64(b))
    return unhash64(((target ^ r2) - 0x9e3779b9 - (r2 << 6) - (r2 >> 2)) & M64)


def partner_raw(a, b, a2):
    """... hashed as the 16 bytes of an array"""
    s0 = SEED ^ (16 * M & M64)
    h, h2 = (s0 ^ mix(a)) * M & M64, (s0 ^ mix(a2)) * M & M64
    return unmix(mix(b) ^ h ^ h2)


def group(rng, n, raw=False):
    """n pairs of 64 bits numbers with the same hash, as members of a structure or (raw) as elements of an array"""
    partner = partner_raw if raw else globals()["partner"]
    a, b = rng.getrandbits(64), rng.getrandbits(64)
    out = [(a, b)]
    while len(out) < n:
        a2 = rng.getrandbits(rng.choice([3, 16, 64]))
        if all(a2 != x[0] for x in out):
            out.append((a2, partner(a, b, a2)))
    return out


if __name__ == "__main__":
    import random
    r = random.Random(1)
    for v in (0, 1, 12345, M64):
        assert unhash64(hash64(v)) == v
    for a, b in group(r, 4):
        print(f"{{{a}ull,{b}ull}},", hex(combine(hash64(a), hash64(b))))
