import binascii, hashlib, itertools
from lib import check, close

FILES = ['fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py']
RULE = 'random token collections and integers with special bit patterns; non-trivial: at least one token or one bit'
P = 4294967311
M32 = 2 ** 32 - 1


def toks(seq):
    if type(seq) is str:
        return {ord(c) for c in seq}
    return {binascii.crc32(t.encode()) & 0xffffffff for t in seq}


def mins(params, ts):
    return [min([M32] + [(a * t + b) % P for t in ts]) for a, b in params]


@check
def minhash_sig(seq, h, seed):
    from fog.lsh import MinHash
    m = MinHash(h, seed=seed)
    if len(m.params) != h or len(set(m.params)) != h:
        return 'not %d distinct parameter pairs' % h
    for a, b in m.params:
        if not (1 <= a <= M32 and 0 <= b <= M32):
            return 'parameters out of range'
    s = list(m.create_signature(seq))
    ts = toks(seq)
    e = mins(m.params, ts) if ts else [0] * h
    if s != e:
        return 'signature %r, expected %r' % (s[:4], e[:4])
    if list(MinHash(h, seed=seed).params) != list(m.params):
        return 'not determined by the seed'


@check
def minhash_numpy(seq, h, seed):
    from fog.lsh import MinHash
    m = MinHash(h, seed=seed, use_numpy=True)
    s = [int(x) for x in m.create_signature(seq)]
    ts = toks(seq)
    params = [(int(a), int(b)) for a, b in zip(m.A, m.B)]
    if len(params) != h or any(not (1 <= a <= M32 and 0 <= b <= M32) for a, b in params):
        return 'parameters out of range'
    e = mins(params, ts) if ts else [0] * h
    if s != e:
        return 'numpy signature %r, expected %r' % (s[:4], e[:4])


@check
def lsb_sig(seq, precision, seed):
    from fog.lsh import LSBMinHash
    m = LSBMinHash(precision, seed=seed)
    s = m.create_signature(seq)
    ts = toks(seq)
    e = [0] * precision
    if ts:
        v = mins(m.params, ts)
        e = [sum((v[64 * k + i] & 1) << i for i in range(64)) for k in range(precision)]
    if s != e:
        return 'signature %r, expected %r' % (s, e)


@check
def same_sets(a, b, h, precision, seed):
    """equal token sets give equal signatures"""
    from fog.lsh import MinHash, LSBMinHash
    if set(a) != set(b):
        return None
    if MinHash(h, seed=seed).create_signature(a) != MinHash(h, seed=seed).create_signature(b):
        return 'minhash signatures differ'
    m = LSBMinHash(precision, seed=seed)
    if m.create_signature(a) != m.create_signature(b):
        return 'lsb signatures differ'


@check
def msim(a, b):
    from fog.lsh import minhash_similarity
    e = sum(x == y for x, y in zip(a, b)) / len(a)
    r = minhash_similarity(a, b)
    if not close(r, e):
        return 'minhash_similarity %r, expected %r' % (r, e)


@check
def lsim(a, b):
    from fog.lsh import lsb_minhash_similarity
    e = 1 - 2 * sum(bin(x ^ y).count('1') for x, y in zip(a, b)) / (64 * len(a))
    r = lsb_minhash_similarity(a, b)
    if not close(r, e):
        return 'lsb_minhash_similarity %r, expected %r' % (r, e)


@check
def pop(x):
    import fog.lsh.utils as U
    e = bin(x).count('1')
    for name, bits in (('popcount', 4096), ('popcount16', 16), ('popcount32', 32), ('popcount64', 64)):
        if x < 2 ** bits:
            r = getattr(U, name)(x)
            if r != e:
                return '%s(%d) = %r, expected %d' % (name, x, r, e)
    if (U.is_power_of_two(x) == 0) != (e <= 1):
        return 'is_power_of_two(%d) = %r' % (x, U.is_power_of_two(x))


@check
def crc(s):
    from fog.lsh.utils import crc32
    if crc32(s) != binascii.crc32(s.encode()) & 0xffffffff:
        return 'crc32(%r) = %r' % (s, crc32(s))


@check
def sim(tokens, f):
    from fog.lsh.simhash import simhash
    r = simhash(list(tokens), f=f)
    hf = {256: hashlib.sha256, 512: hashlib.sha512}.get(f, hashlib.md5)
    hs = [int(hf(t.encode()).hexdigest()[0:f >> 2], 16) for t in tokens]
    e = 0
    for i in range(f):
        ones = sum(h >> i & 1 for h in hs)
        if ones > len(hs) - ones:
            e |= 1 << i
    if r != e:
        return 'simhash(%r, %d) = %r, expected %r' % (tokens, f, r, e)


@check
def simd(a, b, f):
    from fog.lsh.simhash import simhash_distance, simhash_similarity
    d = bin(a ^ b).count('1') / f
    if not close(simhash_distance(a, b, f), d) or not close(simhash_similarity(a, b, f), 1 - d):
        return 'simhash distance %r similarity %r, expected %r' % (simhash_distance(a, b, f), simhash_similarity(a, b, f), d)


def main(ctx):
    rng = ctx.rng
    ints, strs = ctx.literals(FILES)
    for x in range(0, 2 ** 16):
        ctx.run('pop', x, nontrivial=x > 0)
        if x % 1024 == 0 and (ctx.done() or ctx.left() < .7 * ctx.budget):
            break
    special = [0, 1, 2 ** 64 - 1, 2 ** 32 - 1, 2 ** 63, 2 ** 33, 0x5555555555555555, 0x3333333333333333, 0x0f0f0f0f0f0f0f0f, 0xffff0000, 0xffff] + [x for x in ints if x >= 0]
    special += [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(65)]
    for x in special:
        ctx.run('pop', x)
    for _ in ctx.share(.15):
        b = rng.choice([16, 20, 32, 40, 64, 64])
        x = rng.getrandbits(b)
        if rng.random() < .3: x &= rng.getrandbits(b)
        if rng.random() < .3: x |= rng.getrandbits(b)
        ctx.run('pop', x)
        ctx.run('pop', rng.choice(special) ^ (1 << rng.randrange(64)))
    W = ['a', 'b', 'ab', '\xe9', '\U0001F600', '', 'the', 'cat'] + ['w%d' % i for i in range(30)]
    for _ in ctx.share(.5):
        seq = [rng.choice(W) for _ in range(rng.choice([0, 1, 2, 3, 8, 20]))]
        if rng.random() < .4:
            seq = ''.join(rng.choice(W) for _ in range(rng.choice([0, 1, 2, 5])))
        h = rng.choice([1, 2, 3, 16, 64])
        ctx.run('minhash_sig', seq, h, rng.randint(0, 1000))
        ctx.run('minhash_numpy', seq, h, rng.randint(0, 1000))
        if rng.random() < .3:
            ctx.run('lsb_sig', seq, rng.choice([1, 2, 3]), rng.randint(0, 1000))
        if isinstance(seq, list) and seq:
            s2 = seq + [rng.choice(seq) for _ in range(3)]
            rng.shuffle(s2)
            ctx.run('same_sets', seq, s2, 8, 1, 3)
        n = rng.randint(1, 12)
        a = [rng.randint(0, 3) for _ in range(n)]
        b = [rng.randint(0, 3) for _ in range(n)]
        ctx.run('msim', a, b)
        a = [rng.getrandbits(64) for _ in range(n)]
        b = [x ^ (rng.getrandbits(64) & rng.getrandbits(64)) for x in a]
        ctx.run('lsim', a, b)
        ctx.run('crc', rng.choice(W))
        if rng.random() < .3:
            f = rng.choice([16, 32, 64, 128, 256, 512])
            ctx.run('sim', [rng.choice(W) for _ in range(rng.choice([0, 1, 2, 3, 4, 7]))], f)
            ctx.run('simd', rng.getrandbits(f), rng.getrandbits(f), f)
