"""Run the real code of /repo through its public functions and record what it did.

A recorded case is a list of events {s, op, a, o, chk} (see spec/ITMTrace.tla).  Every number
is written as the pair of signed 32-bit halves of its IEEE-754 bit pattern; every observation is
a list of numbers.  What the code did not deliver as a finite real number (an exception, None,
a complex number, a missing key, a call that does not end) is written as NaN, so that the
specification can always judge it.
"""
import copy
import math
import os
import signal
import struct
import sys
import threading

REPO = os.environ.get('ITM_REPO', '/repo')
for _p in (os.path.join(REPO, 'scripts'), os.path.join(REPO, 'src')):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)
sys.dont_write_bytecode = True

import warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')

NAN = [2146959360, 0]


def num(x):
    """Encode one number."""
    if isinstance(x, (bool, np.bool_)):
        return num(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag != 0:
            return NAN
        x = x.real
    try:
        v = float(x)
    except (TypeError, ValueError, OverflowError):
        return NAN
    if v != v:
        return NAN
    if v == 0:
        v = 0.0
    hi, lo = struct.unpack('>ii', struct.pack('>d', v))
    return [hi, lo]


def dec(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def nums(xs):
    if xs is None:
        return [NAN]
    try:
        if hasattr(xs, 'keys'):
            xs = [xs[k] for k in sorted(xs.keys())]
        if isinstance(xs, (str, bytes)):
            return [NAN]
        return [num(x) for x in xs]
    except Exception:
        return [NAN]


def spell(x):
    """The same number as a caller may write it: int, float or numpy's float.  Which one depends
    on the value alone, so equal questions are spelled equally."""
    if type(x) is not float or not math.isfinite(x):
        return x
    k = (struct.unpack('>q', struct.pack('>d', x))[0] * 0x9E3779B97F4A7C15 >> 40) % 8
    if x == int(x) and abs(x) < 1e15 and k < 5:
        return int(x)
    return np.float64(x) if k >= 6 else x


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


def call(fn, *args, limit=20, **kw):
    """(True, result) or (False, exception)."""
    if threading.current_thread() is not threading.main_thread():    # the scheduler keeps the limit
        try:
            return True, fn(*args, **kw)
        except (Exception, Timeout) as e:
            return False, e
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return True, fn(*args, **kw)
    except Timeout as e:
        return False, e
    except Exception as e:  # the code under test raised: an observation
        return False, e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_mods = {}


def code(name):
    """A public function of the package, imported from /repo's working tree."""
    if name not in _mods:
        import importlib
        where = {
            'lrprop': 'itmlogic.lrprop', 'adiff': 'itmlogic.diffraction_attenuation.adiff',
            'aknfe': 'itmlogic.diffraction_attenuation.aknfe',
            'fht': 'itmlogic.diffraction_attenuation.fht',
            'alos': 'itmlogic.los_attenuation.alos', 'ahd': 'itmlogic.scatter_attenuation.ahd',
            'h0f': 'itmlogic.scatter_attenuation.h0f', 'curv': 'itmlogic.statistics.curv',
            'avar': 'itmlogic.statistics.avar', 'qerf': 'itmlogic.misc.qerf',
            'qerfi': 'itmlogic.misc.qerfi', 'qtile': 'itmlogic.misc.qtile',
            'dlthx': 'itmlogic.preparatory_subroutines.dlthx',
            'hzns': 'itmlogic.preparatory_subroutines.hzns',
            'qlra': 'itmlogic.preparatory_subroutines.qlra',
            'qlrpfl': 'itmlogic.preparatory_subroutines.qlrpfl',
            'qlrps': 'itmlogic.preparatory_subroutines.qlrps',
            'zlsq1': 'itmlogic.preparatory_subroutines.zlsq1',
        }[name]
        m = importlib.import_module(where)
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep), m.__file__
        _mods[name] = getattr(m, name)
    return _mods[name]


PAIRS = ('hg', 'he', 'dl', 'the', 'dls')
SCALARS = ('aref', 'kwx', 'dist', 'mdp', 'dlsa', 'dla', 'tha', 'aed', 'emd', 'ael', 'ak1', 'ak2',
           'aes', 'ems', 'dx', 'dh', 'wn', 'ens', 'gme', 'lvar', 'klim', 'mdvar')


# Coefficients of the fitted curve: what the library keeps between calls, not what it promises.
# A parameter set without them is judged by its answers alone.
INNER = ('dls', 'dlsa', 'dla', 'tha', 'aed', 'emd', 'ael', 'ak1', 'ak2', 'aes', 'ems', 'dx')


def prop_obs(prop, ok=True):
    """The documented contents of a parameter set after a call."""
    if not ok or not hasattr(prop, 'get'):
        prop = {}
        ok = False
    o = {}
    for k in PAIRS:
        v = prop.get(k)
        if ok and k in INNER and v is None:
            o[k] = []
            continue
        try:
            o[k] = [num(v[0]), num(v[1])]
        except Exception:
            o[k] = [NAN, NAN]
    for k in SCALARS:
        v = prop.get(k)
        o[k] = [] if ok and k in INNER and v is None else [num(v)]
    z = prop.get('zgnd')
    try:
        z = complex(z)
        o['zgnd'] = [num(z.real), num(z.imag)]
    except Exception:
        o['zgnd'] = [NAN, NAN]
    return o


class Case:
    """One case: sessions, recorded events and a readable log."""

    def __init__(self, label):
        self.label = label
        self.ev = []
        self.sessions = {}
        self.passed = {}

    def add(self, op, a, o, chk, s='-'):
        self.ev.append({'s': s, 'op': op, 'a': a, 'o': o, 'chk': list(chk)})
        return len(self.ev)

    # --- sessions -------------------------------------------------------
    def begin(self, s, hg, wn, dh, ens, gme, zgnd, kwx=0, lvar=5, klim=5, mdvar=0):
        prop = dict(hg=[spell(h) for h in hg], wn=spell(wn), dh=spell(dh), ens=spell(ens), gme=gme,
                    zgnd=zgnd, kwx=kwx, lvar=lvar, klim=klim, mdvar=mdvar)
        self.sessions[s] = prop
        self.passed[s] = prop['hg']
        zg = complex(zgnd)
        return self.add('begin', dict(hg=nums(hg), wn=num(wn), dh=num(dh), ens=num(ens),
                                      gme=num(gme), zgnd=[num(zg.real), num(zg.imag)], kwx=kwx,
                                      lvar=lvar, klim=klim, mdvar=mdvar), {}, (), s)

    def set(self, s, **ch):
        """The caller changes parameters."""
        prop = self.sessions[s]
        a = {}
        for k, v in ch.items():
            if k == 'lvar':
                prop['lvar'] = max(prop['lvar'], v)
                a[k] = v
            elif k in ('klim', 'mdvar', 'kwx', 'mdp'):
                prop[k] = v
                a[k] = v
            elif k in ('he', 'dl', 'the', 'hg'):
                new = [spell(x) for x in v]
                if len(self.ev) % 3 == 0 and isinstance(prop.get(k), list) and len(prop[k]) == 2:
                    prop[k][:] = new             # the caller writes into the list that is there
                else:
                    prop[k] = new
                if k == 'hg':
                    self.passed[s] = prop[k]
                a[k] = nums(v)
            elif k == 'zgnd':
                prop[k] = v
                a[k] = [num(complex(v).real), num(complex(v).imag)]
            elif k == 'gme':
                prop[k] = v
                a[k] = num(v)
            else:
                prop[k] = spell(v)
                a[k] = num(v)
        return self.add('set', a, {}, (), s)

    def _apply(self, s, ok, res, take=lambda r: r):
        if ok:
            try:
                res = take(res)
                if hasattr(res, 'get'):
                    self.sessions[s] = res
                    return True
            except Exception:
                pass
            return False
        return False

    def qlra(self, s, kst, klimx=0, mdvarx=-1, chk=()):
        prop = self.sessions[s]
        prop['klimx'], prop['mdvarx'] = klimx, mdvarx
        kst_in = list(kst)
        ok, res = call(code('qlra'), kst_in, prop)
        ok = self._apply(s, ok, res)
        o = prop_obs(self.sessions[s], ok)
        o['kst'] = nums(kst_in)
        o['hgin'] = nums(self.passed[s])
        return self.add('qlra', dict(kst=list(kst), klimx=klimx, mdvarx=mdvarx), o, chk, s)

    def lrprop(self, s, d, chk=(), fresh=None):
        ok, res = call(code('lrprop'), spell(d), self.sessions[s])
        ok = self._apply(s, ok, res)
        o = prop_obs(self.sessions[s], ok)
        if fresh is not None:
            o['fresh'] = [num(fresh)]
        return self.add('lrprop', dict(d=num(d)), o, chk, s)

    def qlrpfl(self, s, z, xi, klimx=0, mdvarx=-1, chk=(), zlist=None):
        prop = self.sessions[s]
        prop['klimx'], prop['mdvarx'] = klimx, mdvarx
        pfl = [len(z) - 1, spell(xi)] + list(z) if zlist is None else zlist
        prop['pfl'] = pfl
        hg, gme = list(prop['hg']), prop['gme']
        ok, res = call(code('qlrpfl'), prop)
        ok = self._apply(s, ok, res)
        o = prop_obs(self.sessions[s], ok)
        o['pfl'] = nums(pfl)
        o['hgin'] = nums(self.passed[s])
        return self.add('qlrpfl', dict(z=nums(z), xi=num(xi), klimx=klimx, mdvarx=mdvarx,
                                       rhg=nums(hg), rgme=num(gme)), o, chk, s)

    def avar(self, s, zt, zl, zc, chk=('val',)):
        ok, res = call(code('avar'), spell(zt), spell(zl), spell(zc), self.sessions[s])
        val = [NAN]
        if ok:
            try:
                v, p = res
                val = [num(v)]
                ok = self._apply(s, True, p)
            except Exception:
                ok = False
        o = prop_obs(self.sessions[s], ok)
        o['val'] = val
        return self.add('avar', dict(zt=num(zt), zl=num(zl), zc=num(zc)), o, chk, s)

    def at(self, op, s, d, chk=('val',)):
        """adiff or alos at a distance, on a copy of a session in which a path is prepared."""
        prop = copy.deepcopy(self.sessions[s])
        ok, res = call(code(op), d, prop)
        if ok and op == 'adiff':
            try:
                res = res[0]
            except Exception:
                ok = False
        return self.add(op, dict(d=num(d)), dict(val=[num(res) if ok else NAN]), list(chk), s)

    def fn(self, op, names, *args):
        ok, res = call(code(op), *[spell(v) for v in args])
        return self.add(op, {k: num(v) for k, v in zip(names, args)},
                        dict(val=[num(res) if ok else NAN]), ['val'])

    def rel(self, kind, i, j, fields, at=0.0, rt=0.0, amb=0, **kw):
        a = dict(kind=kind, i=i, j=j, at=num(at), rt=num(rt), amb=amb)
        for k, v in kw.items():
            a[k] = nums(v) if isinstance(v, (list, tuple)) else num(v)
        return self.add('rel', a, {}, fields)

    # --- one-shot functions ------------------------------------------------
    def hzns(self, z, xi, hg, gme, chk):
        pfl = [len(z) - 1, spell(xi)] + list(z)
        dist = pfl[0] * xi
        hgl = list(hg)
        ok, res = call(code('hzns'), pfl, dist, hgl, gme)
        try:
            the, dl = res
            o = dict(the=[num(the[0]), num(the[1])], dl=[num(dl[0]), num(dl[1])])
        except Exception:
            o = dict(the=[NAN, NAN], dl=[NAN, NAN])
        o['pfl'] = nums(pfl)
        o['hgin'] = nums(hgl)
        return self.add('hzns', dict(z=nums(z), xi=num(xi), dist=num(dist), hg=nums(hg),
                                     gme=num(gme)), o, chk)

    def zlsq1(self, z, xi, x1, x2, chk):
        pfl = [len(z) - 1, spell(xi)] + list(z)
        ok, res = call(code('zlsq1'), pfl, spell(x1), spell(x2))
        try:
            o = dict(line=[num(res[0]), num(res[1])])
        except Exception:
            o = dict(line=[NAN, NAN])
        o['pfl'] = nums(pfl)
        return self.add('zlsq1', dict(z=nums(z), xi=num(xi), x1=num(x1), x2=num(x2)), o, chk)

    def dlthx(self, z, xi, x1, x2, chk):
        pfl = [len(z) - 1, spell(xi)] + list(z)
        ok, res = call(code('dlthx'), pfl, spell(x1), spell(x2))
        o = dict(dh=[num(res) if ok else NAN])
        o['pfl'] = nums(pfl)
        return self.add('dlthx', dict(z=nums(z), xi=num(xi), x1=num(x1), x2=num(x2)), o, chk)

    def json(self):
        return {'label': self.label, 'ev': self.ev}
