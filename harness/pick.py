"""Concrete numbers inside the classes of spec/ITMScenario.tla."""
import cmath
import math

FREQ = {'limit': (20.0, 40.0), 'vhf': (40.0, 300.0), 'uhf': (300.0, 3000.0),
        'shf': (3000.0, 10000.0), 'ehf': (10000.0, 20000.0)}
HEIGHT = {'tiny': (0.5, 1.0), 'low': (1.0, 5.0), 'mid': (5.0, 60.0), 'high': (60.0, 1000.0),
          'vhigh': (1000.0, 3000.0)}
ROUGH = {'zero': (0.0, 0.0), 'smooth': (0.05, 5.0), 'rolling': (5.0, 60.0), 'hilly': (60.0, 150.0),
         'rugged': (150.0, 700.0)}
GROUND = [(4, 0.001), (15, 0.005), (25, 0.02), (81, 0.01), (81, 5.0), (15, 0.001), (4, 0.0)]
COUNT = {'two': (1, 1), 'three': (2, 2), 'few': (3, 9), 'some': (10, 60), 'many': (61, 200), 'most': (201, 599)}


class Pick:
    def __init__(self, rnd):
        self.r = rnd

    def log(self, a, b):
        if a <= 0:
            return a + (b - a) * self.r.random()
        return math.exp(self.r.uniform(math.log(a), math.log(b)))

    def freq(self, c):
        return self.log(*FREQ[c])

    def height(self, c):
        v = self.log(*HEIGHT[c])
        return float(round(v)) if v > 4 and self.r.random() < 0.2 else v

    def rough(self, c):
        return self.log(*ROUGH[c])

    def radio(self, fmhz, pol=None, ens=None):
        """wn, ens, gme, zgnd for a frequency, with random refractivity and ground."""
        r = self.r
        wn = fmhz / 47.7
        if ens is None:
            ens = r.choice([301.0, 314.0, r.uniform(250, 400), r.uniform(250, 400)])
        gme = 157e-9 * (1 - 0.04665 * math.exp(ens / 179.3))
        if ens > 380 and r.random() < 0.5:
            gme = max(gme, 75e-9)
        eps, sgm = r.choice(GROUND)
        zq = complex(eps, 376.62 * sgm / wn)
        z = cmath.sqrt(zq - 1)
        if (r.random() < 0.5) if pol is None else pol:
            z = z / zq
        return dict(wn=wn, ens=ens, gme=gme, zgnd=z)

    def deviate(self):
        r = self.r
        return r.choice([0.0, r.gauss(0, 1), r.gauss(0, 1), r.uniform(-3.1, 3.1), r.uniform(-4, 4),
                         r.choice([1.282, 2.161, -1.282, 1.2815, 2.3267, -2.3267, 0.5, 3.1, -3.1])])

    # --- profiles ----------------------------------------------------------
    def count(self, c, most=None):
        lo, hi = COUNT[c]
        if most:
            hi = max(lo, min(hi, most))
        return self.r.randint(lo, hi)

    def profile(self, shape, npc, most=None, npts=None):
        """Elevations z and spacing xi."""
        r = self.r
        np = npts if npts else self.count(npc, most)
        n = np + 1
        length = self.log(1.2e3, 150e3) if r.random() < 0.85 else self.log(150e3, 900e3)
        xi = length / np
        if r.random() < 0.25:
            xi = float(max(1, round(xi)))
        elif r.random() < 0.25:
            xi = 2.0 ** min(12, max(0, round(math.log2(xi))))
        base = r.choice([0.0, 10.0, r.uniform(0, 800)])
        amp = r.choice([1.0, 10.0, 60.0, 200.0, 500.0]) * r.uniform(0.5, 1.5)
        t = [i / np for i in range(n)]

        def bump(c, w, a):
            return [a * math.exp(-((x - c) / w) ** 2) for x in t]
        small = [r.gauss(0, 1) * amp * 0.03 for _ in t]
        if shape == 'flat':
            z = [0.0] * n
        elif shape == 'ramp':
            s = r.uniform(-1, 1) * amp
            z = [s * x for x in t]
        elif shape == 'noise':
            z = [r.gauss(0, 1) * amp * 0.4 for _ in t]
        elif shape in ('walk', 'steps'):
            z, v = [], 0.0
            for _ in t:
                z.append(v)
                v += r.gauss(0, 1) * amp / math.sqrt(n)
            if shape == 'steps':
                z = [round(v / 5) * 5.0 for v in z]
        elif shape == 'ridge':
            z = [a + b for a, b in zip(bump(r.uniform(0.3, 0.7), r.uniform(0.02, 0.2), amp), small)]
        elif shape == 'tworidges':
            z = [a + b + c for a, b, c in zip(bump(r.uniform(0.1, 0.45), r.uniform(0.02, 0.1), amp),
                                              bump(r.uniform(0.55, 0.9), r.uniform(0.02, 0.1),
                                                   amp * r.uniform(0.4, 1.4)), small)]
        elif shape == 'nearridge':
            z = [a + b for a, b in zip(bump(r.uniform(0.02, 0.12), r.uniform(0.01, 0.05), amp), small)]
        elif shape == 'farridge':
            z = [a + b for a, b in zip(bump(r.uniform(0.88, 0.98), r.uniform(0.01, 0.05), amp), small)]
        elif shape == 'edgeridge':
            z = list(small)
            if np >= 2:
                if r.random() < 0.67:
                    z[1] = amp
                if r.random() < 0.67:
                    z[np - 1] = amp * r.uniform(0.5, 1.5)
        elif shape == 'valley':
            z = [b - a for a, b in zip(bump(r.uniform(0.2, 0.8), r.uniform(0.1, 0.3), amp), small)]
        elif shape == 'cliff':
            k = r.uniform(0.1, 0.9)
            up = r.random() < 0.5
            z = [s + (amp if (x > k) == up else 0) for x, s in zip(t, small)]
        elif shape == 'sea':
            k = r.uniform(0.2, 0.8)
            z = [0.0 if x < k else abs(s) * 5 + 1 for x, s in zip(t, small)]
            if r.random() < 0.5:
                z.reverse()
            base = 0.0
        elif shape == 'island':
            k, w = r.uniform(0.2, 0.8), r.uniform(0.05, 0.2)
            z = [max(0.0, amp * (1 - abs(x - k) / w)) for x in t]
            base = 0.0
        elif shape == 'hump':
            a = amp * r.uniform(0.2, 1)
            z = [4 * a * x * (1 - x) for x in t]
        elif shape == 'spike':
            z = list(small)
            if np >= 2:
                z[r.randint(1, np - 1)] = amp * r.uniform(1, 3)
        elif shape == 'slope':                     # down a steep side (or two), over a rise at its foot, onto low ground
            xi = self.log(2e3, 3e4) / np
            z = [abs(v) * 0.3 for v in small]
            for flip in r.choice([(False,), (True,), (False, True)]):
                k = max(1, min(np - 1, round(np * r.uniform(0.1, 0.45)))) if np > 1 else 1
                g = r.choice([0.15, 0.19, 0.21, 0.25, 0.4]) * r.uniform(0.9, 1.1)
                side = [max(0, k - i) * xi * g for i in range(n)]
                if side[0] > 3000:
                    side = [v * 3000 / side[0] for v in side]
                low, g = self.log(5, 300), g * r.choice([0, 1.05, 1.5])
                side = [v if i <= k else v - low - g * (i - k) * xi for i, v in enumerate(side)]
                if flip:
                    side.reverse()
                z = [a + b for a, b in zip(z, side)]
        else:
            raise ValueError(shape)
        z = [v + base for v in z]
        k = r.random()
        if k < 0.3:
            z = [float(round(v)) for v in z]
        elif k < 0.4:
            z = [int(round(v)) for v in z]
        elif k < 0.43:                             # some whole numbers, some not
            z = [int(round(v)) if r.random() < 0.5 else v for v in z]
        elif k < 0.46:
            import numpy
            z = [numpy.float64(v) for v in z]
        return z, xi


def area_he(kst, hg, dh):
    if kst <= 0:
        return hg
    q = 4 if kst == 1 else 9
    if hg < 5:
        q *= math.sin(0.3141593 * hg)
    return hg + (1 + q) * math.exp(-min(20, 2 * hg / max(1e-3, dh)))


def smooth(he, gme):
    return sum(math.sqrt(2 * h / gme) for h in he)
