"""Runtime-monitor core: cases are executions of the real code in /repo; `Rec` is the oracle's event log.

A property module defines GROUPS = {name: (func, n_quick, n_thorough)}; func(rng, rec) runs one generated workload and
calls rec.check(...) for each oracle decision. A false decision, or an exception escaping a workload that the property says
is valid, is a violation. Nothing here looks at source text."""
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VREPO', '/repo')
EXE = os.path.join(REPO, 'python')


class Violation(Exception):
    def __init__(self, msg, witness=None):
        super().__init__(msg)
        self.msg = msg
        self.witness = witness


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """Generated case is outside the property's domain (counted, never silent)."""


def short(x, n=300):
    try:
        if isinstance(x, np.ndarray):
            s = np.array2string(x, precision=17, threshold=24)
        else:
            s = repr(x)
    except Exception as e:  # pragma: no cover
        s = '<unprintable %s>' % e
    return s if len(s) <= n else s[:n] + '...'


class Rec:
    def __init__(self, prop, group, idx, seed, tier, known=()):
        self.prop, self.group, self.idx, self.seed, self.tier = prop, group, idx, seed, tier
        self.events = {}
        self.sigs = set()
        self.sample = None
        self.known_hit = {}
        self.known = set(known)
        self.ctx = {}
        self._tmp = None

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case', dir=os.environ.get('VMON_WORK'))
        return self._tmp

    def close(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def sig(self, *a):
        """Record what distinct situation was observed (counted as distinct_nontrivial)."""
        self.sigs.add(zlib.crc32(repr(a).encode()) & 0xffffffff)
        if self.sample is None:
            self.sample = short(a, 400)

    def set(self, **kw):
        self.ctx.update(kw)

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def check(self, cond, msg, name=None, finding=None, **wit):
        self.ev(name or msg.split(':')[0][:60])
        if bool(cond):
            return True
        if finding is not None and finding in self.known:
            self.known_hit[finding] = msg + ' ' + short(wit, 200)
            return False
        w = {k: short(v) for k, v in self.ctx.items()}
        w.update({k: short(v) for k, v in wit.items()})
        raise Violation(msg, w)

    def eq(self, a, b, msg, **wit):
        return self.check(a == b, msg, got=a, expected=b, **wit)

    def near(self, got, exp, msg, rtol=1e-9, atol=1e-12, finding=None, **wit):
        g, e = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
        if g.shape != e.shape:
            return self.check(False, msg + ' (shape %s vs %s)' % (g.shape, e.shape), name=msg[:60], got=got, expected=exp,
                              finding=finding, **wit)
        with np.errstate(all='ignore'):
            same = (g == e) | (np.isnan(g) & np.isnan(e)) | (np.abs(g - e) <= atol + rtol * np.abs(e))
        ok = bool(np.all(same))
        if ok:
            return self.check(True, msg)
        bad = np.argwhere(~np.atleast_1d(same))[0]
        return self.check(False, msg, finding=finding, at=tuple(int(i) for i in bad), got=np.atleast_1d(g)[tuple(bad)],
                          expected=np.atleast_1d(e)[tuple(bad)], got_all=got, expected_all=exp, **wit)

    def raises(self, exc, func, msg, **wit):
        try:
            res = func()
        except exc:
            return self.check(True, msg)
        return self.check(False, msg + ': no error reported', result=res, **wit)


def case_rng(seed, prop, group, idx):
    ss = np.random.SeedSequence([int(seed) & 0xffffffff, zlib.crc32(prop.encode()), zlib.crc32(group.encode()), int(idx)])
    st = ss.generate_state(4)
    np.random.seed(int(st[0]))
    random.seed(int(st[1]))
    return np.random.default_rng(ss)


def repo_frame(tb):
    loc = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + os.sep):
            loc = '%s:%s %s' % (os.path.relpath(fr.filename, REPO), fr.lineno, fr.name)
    return loc


def reset_state():
    """Undo process-wide settings that earlier cases of this worker may have changed."""
    try:
        import warnings
        warnings.simplefilter('ignore')
        import matplotlib
        import matplotlib.pyplot as plt
        plt.close('all')
        matplotlib.rcdefaults()
        matplotlib.use('Agg')
    except Exception:
        pass


def run_case(prop, group, func, idx, seed, tier, known=(), limit=240, verbose=False):
    """Run one case. Returns a picklable dict."""
    rec = Rec(prop, group, idx, seed, tier, known)
    rec.idx = idx
    rng = case_rng(seed, prop, group, idx)
    out = dict(group=group, idx=idx, violation=None, skipped=False)

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    try:
        func(rng, rec)
    except Skip:
        out['skipped'] = True
    except Violation as v:
        out['violation'] = dict(msg=v.msg, witness=v.witness)
        if verbose:
            traceback.print_exc()
    except CaseTimeout:
        out['violation'] = dict(msg='execution did not finish within %s s' % limit,
                                witness={k: short(v) for k, v in rec.ctx.items()})
    except (MemoryError, KeyboardInterrupt):
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, OSError) and getattr(e, 'errno', None) in (28, 24):
            out['harness_error'] = traceback.format_exc()
        else:
            loc = repo_frame(e.__traceback__)
            w = {k: short(v) for k, v in rec.ctx.items()}
            w['traceback'] = traceback.format_exc()[-1500:]
            out['violation'] = dict(msg='%s: %s (%s)' % (type(e).__name__, short(str(e), 200),
                                                         'raised in ' + loc if loc else 'result unusable by the monitor'),
                                    witness=w)
            if verbose:
                traceback.print_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        try:
            os.chdir(cwd)
        except OSError:
            pass
        rec.close()
    out.update(events=rec.events, sigs=sorted(rec.sigs), sample=rec.sample, known=rec.known_hit)
    return out


def load_known():
    """known_findings.txt -> {property: {key: text}} for lines 'known: property=<id> key=<key> <text>'."""
    res = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith('known:'):
                parts = line[len('known:'):].split()
                p = parts[0].split('=', 1)[1]
                k = parts[1].split('=', 1)[1]
                res.setdefault(p, {})[k] = ' '.join(parts[2:])
    return res


def tree_state(root):
    """{relative path: sha1} of all files (used by file-effect monitors)."""
    res = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                res[rel] = 'link:' + os.readlink(p)
            else:
                with open(p, 'rb') as h:
                    res[rel] = hashlib.sha1(h.read()).hexdigest()
        for f in dirs:
            res[os.path.relpath(os.path.join(d, f), root) + '/'] = 'dir'
    return res


def dump_json(fn, obj):
    tmp = fn + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1)
        f.write('\n')
    os.replace(tmp, fn)
