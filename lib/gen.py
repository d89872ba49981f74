"""Seeded generation of series and option vectors."""
import math, random, struct

def bits(x):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', float(x)))[0]

# ---------------------------------------------------------------- series
# Values are multiples of a power of two, few bits wide, so that sums and products are exact and ties are real ties.
def dy(x, q=8):
    return math.floor(x * q + 0.5) / q

def base(rng, kind, n):
    """One positive series of n values."""
    v = []
    if kind == 'walk':
        x = rng.choice([20, 50, 100]) * 1.0
        for _ in range(n):
            x = max(1, dy(x + rng.gauss(0, 1.5)))
            v.append(x)
    elif kind == 'flat':
        x = dy(rng.uniform(5, 100))
        v = [x] * n
    elif kind == 'steps':       # flat stretches with jumps
        x = 32.0
        while len(v) < n:
            v += [x] * rng.randint(1, 9)
            x = max(1, dy(x + rng.uniform(-8, 8)))
    elif kind == 'ties':
        v = [float(rng.randint(8, 11)) for _ in range(n)]
    elif kind == 'up':
        x = 8.0
        for _ in range(n):
            v.append(x); x += rng.choice([0, .125, .5, 1, 1])
    elif kind == 'down':
        x = 8.0 + 2 * n
        for _ in range(n):
            v.append(x); x -= rng.choice([0, .125, .5, 1, 1])
    elif kind == 'zigzag':
        p = rng.randint(2, 9)
        v = [20.0 + abs((i % (2 * p)) - p) * 1.5 for i in range(n)]
    elif kind == 'wave':
        p = rng.uniform(6, 30)
        v = [dy(50 + 20 * math.sin(2 * math.pi * i / p) + rng.gauss(0, .5)) for i in range(n)]
    elif kind == 'spikes':
        v = [dy(rng.uniform(10, 12)) * (rng.choice([8, 16]) if rng.random() < .08 else 1) for i in range(n)]
    elif kind == 'sparse':      # the same extremes, now and then
        p = rng.choice([.01, .03, .1])
        v = [float(rng.choice([8, 64])) if rng.random() < p else 24 + rng.randint(0, 16) / 2. for _ in range(n)]
    elif kind == 'trendflat':   # trend, flat, reversal
        x = 40.0
        while len(v) < n:
            d = rng.choice([-1, 0, 1, .5, -.5, 0])
            for _ in range(rng.randint(2, 14)):
                v.append(x); x = max(1, x + d)
    elif kind == 'zeros':       # non-negative with zeros
        v = [float(rng.choice([0, 0, 1, 2, 5])) for _ in range(n)]
    elif kind == 'real':        # full mantissas
        x = rng.uniform(10, 100)
        for _ in range(n):
            x *= math.exp(rng.gauss(0, .02)); v.append(x)
    elif kind == 'small':
        v = [rng.randint(1, 64) / 1048576.0 for _ in range(n)]
    elif kind == 'tiny':
        v = [rng.randint(64, 128) / 2.0 ** 44 for _ in range(n)]
    elif kind == 'large':
        k = 2. ** rng.choice([20, 23, 30, 38])
        v = [rng.randint(1000, 1064) * k for _ in range(n)]
    elif kind == 'plateau':     # moves that are small in relation to the value
        k = 2. ** rng.choice([20, 26, 30, 33])
        v = [k + rng.randint(0, 40) / 8. for _ in range(n)]
    elif kind == 'rflat':       # stretches of full-mantissa values
        while len(v) < n:
            v += [rng.uniform(1, 20)] * rng.randint(3, 15)
    elif kind == 'signed':      # crosses zero
        x = 0.0
        for _ in range(n):
            x = dy(x * .8 + rng.gauss(0, 2)); v.append(x)
    elif kind == 'extreme':     # everything a double can hold
        pool = [0., 0., 1., 3., 1e300, 1.7e308, 1e154, 1e-300, 5e-324, 1e16, 1e16 + 2, 4294967296., 2147483647., 2147483648., 9.3e18, 1e-17]
        pool = rng.sample(pool, rng.randint(2, 5))
        v = [rng.choice(pool) for _ in range(n)]
    elif kind == 'extremes':    # ... of both signs
        v = [x * rng.choice([1, 1, -1]) for x in base(rng, 'extreme', n)]
    elif kind == 'unit':
        v = [rng.randint(-16, 16) / 16.0 for _ in range(n)]
    else:
        raise ValueError(kind)
    return v[:n]

POSITIVE = ['walk', 'flat', 'steps', 'ties', 'up', 'down', 'zigzag', 'wave', 'spikes', 'sparse', 'trendflat', 'zeros', 'real', 'small', 'tiny', 'large', 'plateau', 'rflat']
SERIES = POSITIVE + ['signed', 'unit']

# series that only make sense as prices
PRICES = {'hurst'}
def kinds(ind, inputs):
    return SERIES if all(x == 'series' for x in inputs) and ind not in PRICES else POSITIVE

def bars(rng, kind, names, n):
    """The named inputs (series/open/high/low/close/volume) of n consistent bars."""
    c = base(rng, kind, n)
    unit = min([abs(a - b) for a, b in zip(c, c[1:]) if a != b] or [max(abs(x) for x in c) / 8 if c else 1] or [1]) or 1
    unit = 2.0 ** math.floor(math.log2(unit)) if unit > 0 else 1.0
    style = rng.choice(['noise', 'noise', 'tight', 'gaps', 'wide'])
    o, h, l, vol = [], [], [], []
    vq = rng.choice(['int', 'int', 'const', 'zeros', 'real' if kind == 'real' else 'big', 'ties', 'eighths', 'huge' if kind not in ('large', 'plateau') else 'int', 'fine'])
    vk = 2. ** rng.choice([10, 16, 22, 24])
    for i in range(n):
        x = c[i]
        if style == 'tight':
            op, hi, lo = x, x, x
            if rng.random() < .3: hi = x + unit * rng.randint(0, 2)
            if rng.random() < .3: lo = x - unit * rng.randint(0, 2)
        else:
            m = 3 if style != 'wide' else 12
            op = (c[i-1] if i and style != 'gaps' else x + unit * rng.randint(-m, m))
            hi = max(op, x) + unit * rng.choice([0, 0, 1, 2, m])
            lo = min(op, x) - unit * rng.choice([0, 0, 1, 2, m])
        if kind in POSITIVE:
            lo = max(lo, 0.0) if kind == 'zeros' else (lo if lo > 0 else min(op, x) if min(op, x) > 0 else x)
            if op < lo: op = lo
            lo = min(lo, x)
        o.append(min(max(op, lo), hi)); h.append(hi); l.append(lo)
        vol.append({'int': float(rng.randint(1, 1000)), 'const': 64.0, 'zeros': float(rng.choice([0, 0, 10, 100])),
                    'real': rng.uniform(1, 1000), 'ties': float(rng.randint(1, 3)),
                    'eighths': rng.randint(1, 80) / 8., 'big': rng.randint(1, 1000) * vk, 'huge': float(rng.randint(1, 10 ** 9)), 'fine': rng.randint(1, 2 ** 30) / 2. ** 20}[vq])
    res, k = [], 0
    for nm in names:
        if nm == 'series' or nm == 'real':
            if k == 0: res.append(c)
            else:
                d = base(rng, rng.choice([kind, kind, 'walk', 'ties']), n)
                # a companion that crosses and touches the first
                if rng.random() < .7:
                    d = [x + unit * rng.choice([-1, 0, 0, 1, 1, -1]) for x in c]
                res.append(d)
            k += 1
        else:
            res.append({'open': o, 'high': h, 'low': l, 'close': c, 'volume': vol}[nm])
    return res

# ---------------------------------------------------------------- options
def small(rng, lo=1):
    return max(lo, rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 16, 20, 25]))

OPTS = {}
def opts(names, f):
    for n in names.split():
        OPTS[n] = f
opts('lag', lambda r: [small(r, 1) if r.random() < .8 else 0])
opts('mom roc rocr', lambda r: [small(r)])

class Deck:
    """Draws like random.Random, but every alternative comes up before any comes up again (per indicator and draw)."""
    def __init__(self, rng, ind):
        self.rng, self.ind, self.n = rng, ind, 0
        if not hasattr(rng, 'decks'): rng.decks = {}
    def choice(self, l):
        self.n += 1
        key = (self.ind, self.n, str(l))
        d = self.rng.decks.get(key)
        if not d:
            d = self.rng.decks[key] = list(range(len(l)))
            self.rng.shuffle(d)
        return l[d.pop()]
    def randint(self, a, b):
        return self.choice(range(a, b + 1))
    def random(self):
        return self.rng.random()
    def sample(self, *a):
        return self.rng.sample(*a)

def options(rng, ind, k):
    """A (usually accepted) option vector of k numbers."""
    return [float(x) for x in OPTS[ind](Deck(rng, ind))] if k else []

def long_options(rng, ind, names, huge=False):
    """Options with periods in the hundreds or thousands, now and then just above a power of two; and enough bars for them."""
    o = options(rng, ind, len(names))
    f, a = rng.choice([25, 60, 100, 150]), rng.choice([0, 40, 64, 64, 130])
    if huge: f = rng.choice([1100, 1900, 2600]) / max([1.] + [x for x in o])
    top = 1
    for i, x in enumerate(names):
        if ('period' in x or x in ('length', 'k') or x[:3] == 'roc' or x[:2] == 'ma' and x[2:].isdigit()) and ind not in ('hwma',) and x != 'k':
            o[i] = float(min({'hurst': 150, 'edcf': 150}.get(ind, 2700 if huge else 1400), max(1, int(o[i] * f) + a)))
            if ind in ('gf1 gf2 gf3 gf4 bf2 bf3 frama').split(): o[i] = 2. * (o[i] // 2)
            top = max(top, int(o[i]))
    return o, top

def chunks(rng, n):
    """A composition of n with empty parts now and then."""
    style, c, s = rng.choice(['one', 'whole', 'small', 'mixed', 'head', 'tail']), [], 0
    if style == 'one': return [1] * n
    if style == 'whole': return [n]
    if style == 'head': k = rng.randint(0, n); return [k] + [1] * (n - k)
    if style == 'tail': k = rng.randint(0, n); return [1] * k + [n - k]
    while s < n:
        k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5] if style == 'small' else [0, 1, 2, 3, 7, 16, 30])
        k = min(k, n - s); c.append(k); s += k
    return c + ([0] if rng.random() < .3 else [])

def block(id, ind, o, series, events):
    L = ['B %s %s' % (id, ind), 'O ' + ' '.join(map(bits, o)), 'S %d %d' % (len(series), len(series[0]) if series else 0)]
    L += ['V ' + ' '.join(map(bits, v)) for v in series]
    L += ['E ' + ' '.join(map(str, e)) for e in events]
    return '\n'.join(L) + '\n.\n'

# ---- per family
def real(r, *c): return r.choice(c)
opts('sma sum var stddev stderr md cci dpo linreg linregintercept linregslope tsf fosc wma trima vwma vwap pbands shmma lma qstick volatility dwma', lambda r: [small(r)])
opts('hma', lambda r: [small(r)])
opts('hurst', lambda r: [small(r, 2)])
opts('bbands', lambda r: [small(r), r.choice([0, 1, 2, 2.5, .5])])
opts('swma', lambda r: [r.choice([1, 2, 3, 4, 7, 8, 9, 10, 13, 14, 15, 16, 20, 25])])
opts('pwma', lambda r: [small(r), r.choice([0, 1, 2, .5, 3, -1])])
opts('idwma', lambda r: [small(r), r.choice([1, 2, 1.5])])
opts('hwma', lambda r: [r.randint(7, 13)])
opts('posc', lambda r: [small(r), small(r)])
opts('edcf', lambda r: [r.choice([1, 2, 3, 4, 5, 7, 10])])
opts('hf', lambda r: [r.choice([1, 2, 3, 5, 8]), r.choice([0, .5, 1, 2, 3])])
opts('hfsma', lambda r: [small(r), r.choice([1, 2, 3, 5, 8]), r.choice([0, .5, 1, 2, 3])])

def near(r, p, n=3):
    return max(1, p + r.randint(-n, n))
opts('min max aroon aroonosc pc willr vhf fisher', lambda r: [small(r)])
opts('stoch', lambda r: [small(r), r.choice([1, 1, 2, 3, 5]), r.choice([1, 2, 3, 5])])
opts('ichi', lambda r: sorted([small(r), small(r), small(r)]))
opts('mhlma', lambda r: [small(r), r.choice([small(r), small(r, 2)])])
opts('stochrsi', lambda r: [small(r, 2)])
opts('mesastoch', lambda r: [small(r, 1), r.choice([3, 5, 8, 10, 20, 48])])
opts('ema dema tema trix wilders zlema ehma ahma decay edecay', lambda r: [small(r)])
opts('hfema', lambda r: [small(r), r.choice([1, 2, 3, 5, 8]), r.choice([0, .5, 1, 2, 3])])
opts('t3 rema', lambda r: [small(r), r.choice([0, .5, .7, 1])])
opts('gf1 gf2 gf3 gf4 bf2 bf3', lambda r: [2 * r.randint(1, 20)])
opts('rmta', lambda r: [small(r), r.choice([.5, .25, .7, .9, 0])])
opts('rmf', lambda r: [r.choice([2, 3, 5, 6, 10, 12, 20]), r.choice([1, 3, 5, 7, 11])])
opts('lf', lambda r: [r.choice([0, .2, .5, .8, 1])])
opts('mgdyn', lambda r: [r.choice([2, 5, 8, 10, 14, 20])])
opts('emsd', lambda r: [small(r), small(r)])
opts('evwma', lambda r: [small(r), r.choice([.5, 1, 2])])
opts('rsi cmo er', lambda r: [small(r)])
opts('macd', lambda r: r.choice([[12, 26, 9], [12, r.choice([13, 20, 25, 27, 40]), small(r)], [r.choice([3, 11, 13, 25]), 26, small(r)]] + 3 * [sorted([small(r), small(r, 2)]) + [small(r)]]))
opts('apo ppo', lambda r: sorted([small(r), small(r, 2)]))
def _kst(r):
    a = sorted(r.sample(range(1, 16), 4))
    return a + [small(r) for _ in range(4)]
opts('kst', _kst)
opts('copp', lambda r: sorted([small(r), small(r)]) + [small(r)])
opts('ultosc', lambda r: sorted([small(r), small(r), small(r)]))
opts('tsi', lambda r: [small(r), small(r)])
opts('smi', lambda r: [small(r), small(r), small(r)])
opts('rmi', lambda r: [small(r), small(r)])
opts('rvi', lambda r: [small(r), small(r, 2)])
opts('pfe', lambda r: [small(r), small(r)])
opts('mfi cmf fi', lambda r: [small(r)])
opts('adosc kvo vosc', lambda r: sorted([small(r), small(r)]))
opts('atr natr dm dx di vi abands cmi mass cvi', lambda r: [small(r)])
opts('adx adxr', lambda r: [small(r, 2)])
opts('psar', lambda r: r.choice([[.02, .2], [.125, 1], [.25, .5], [.3, .4], [.0625, .2]]))
opts('kc', lambda r: [small(r), r.choice([0, 1, 2, 1.5])])
opts('ce', lambda r: [small(r), r.choice([0, 1, 3, 2.5])])
opts('kama msw', lambda r: [small(r)])
opts('vidya', lambda r: sorted([small(r), small(r, 2)]) + [r.choice([0, .2, .5, 1])])
opts('frama', lambda r: [2 * r.randint(1, 8), r.choice([2, 5, 10, 16.5])])
opts('mama', lambda r: r.choice([[.5, .05], [1, 0], [.25, .25], [0, .5], [.75, .125]]))
opts('arsi', lambda r: [r.choice([.5, 1, .25, 2])])

def frac(rng, o):
    """Options between the whole numbers."""
    return [x + rng.choice([.25, .5, .75]) if x >= 1 and rng.random() < .7 else x for x in o]
