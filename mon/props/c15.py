import os

import numpy as np

from .. import gen
from ..core import tree_state

RULE = 'a case is a generated tree of settings files read, typed, saved and re-read (or a dictionary of settings); every key is decided by a ' \
       'precedence model and all files are hashed around saves; distinct = (tree shape, features)'
ASSUMPTIONS = ['a key defined both in the defaults of one include and in a later include is not generated (the reader reports a duplicate)']

KEYS = ['a', 'b', 'file_root', 'x(1)', 'x(2)', 'limits[tau]', 'Key', 'key', 'long_name_with_more', 'k1', 'k2', 'k3', 'k4', 'k5', 'param[ns]', 'n.s', 'END1', 'q']


def value(rng):
    """(text in file, expected text)"""
    k = int(rng.integers(0, 12))
    if k == 0:
        return '', ''
    if k == 1:
        v = str(int(rng.integers(-100, 100)))
    elif k == 2:
        v = repr(float(rng.normal() * 10. ** rng.integers(-5, 6)))
    elif k == 3:
        v = str(rng.choice(['T', 'F', 'True', 'False']))
    elif k == 4:
        v = 'some words with spaces'
    elif k == 5:
        v = 'a=b c==d'
    elif k == 6:
        v = '/path/to file#1.txt'
    elif k == 7:
        return 'pre $(VMON_X)/post', 'pre xval/post'
    elif k == 8:
        return '$(VMON_X)$(VMON_UNSET)-$(VMON_Y)', 'xval-y y'
    elif k == 9:
        v = 'cost $5'
    elif k == 10:
        return '$$a $(VMON_X) b$', '$a xval b$'
    else:
        v = ' '.join('%.4g' % q for q in rng.normal(size=int(rng.integers(1, 5))))
    return v, v


class Tree:
    def __init__(self, rng, tmp):
        self.rng, self.tmp, self.files = rng, tmp, 0
        self.feat = set()

    def write(self, keys, depth, lead='main'):
        """Write a file defining `keys` (list) itself, with random includes and defaults. Returns (path, definitions)
        definitions = effective key->value of the file read alone."""
        rng = self.rng
        self.files += 1
        sub = str(rng.choice(['', '', 'sub', 'sub/deep']))
        d = os.path.join(self.tmp, sub)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s%d%s.ini' % (lead, self.files, rng.choice(['', '', '', ' (copy)', '(1)b'])))
        keys = list(keys)
        own = keys[:int(rng.integers(0, len(keys) + 1))] if depth else keys
        rest = keys[len(own):]
        defs, lines, tail = {}, [], []
        for k in own:
            t, e = value(rng)
            defs[k] = e
            lines.append(str(rng.choice(['%s = %s', '%s=%s', '  %s   =   %s  ', '\t%s =%s'])) % (k, t))
            if rng.random() < 0.15:
                lines.append('# comment = not a value')
            if rng.random() < 0.15:
                lines.append('')
        # includes: disjoint keys
        ninc = int(rng.integers(0, 3)) if depth and rest else 0
        nd = 0
        for i in range(ninc):
            mine, rest = rest[:len(rest) // 2 + 1], rest[len(rest) // 2 + 1:]
            if not mine:
                continue
            p, sd = self.write(mine, depth - 1 if i == ninc - 1 else 0, 'inc')
            for k, v in sd.items():
                if k in defs:
                    # (only through defaults of the include, which give way)
                    continue
                defs[k] = v
            lines.insert(int(rng.integers(0, len(lines) + 1)), ('I', p)) if ninc == 1 else lines.append(('I', p))
            self.feat.add('include')
        ndef = int(rng.integers(0, 3)) if depth else 0
        for i in range(ndef):
            # defaults may define anything, including keys already defined
            ks = [str(v) for v in rng.choice(KEYS, int(rng.integers(1, 8)), replace=False)]
            p, sd = self.write(ks, depth - 1, 'def')
            for k, v in sd.items():
                defs.setdefault(k, v)
            at = [j for j, l in enumerate(lines) if isinstance(l, tuple) and l[0] == 'D']
            lo = at[-1] + 1 if at else 0
            lines.insert(int(rng.integers(lo, len(lines) + 1)), ('D', p))
            self.feat.add('default')
        out = []
        for l in lines:
            if isinstance(l, tuple):
                q = l[1]
                if rng.random() < 0.7:
                    q = os.path.relpath(q, d)
                else:
                    self.feat.add('abs')
                out.append(('INCLUDE(%s)' if l[0] == 'I' else 'DEFAULT(%s)') % q)
            else:
                out.append(l)
        if rng.random() < 0.2:
            out += ['END', 'after_end = 3']
            self.feat.add('end')
        with open(path, 'w', encoding=str(rng.choice(['utf-8', 'utf-8-sig']))) as f:
            f.write('\n'.join(out) + '\n')
        return path, defs


def env():
    os.environ['VMON_X'] = 'xval'
    os.environ['VMON_Y'] = 'y y'
    os.environ.pop('VMON_UNSET', None)


def trees(rng, rec):
    from getdist.inifile import IniFile
    env()
    t = Tree(rng, rec.tmp)
    ks = [str(v) for v in rng.permutation(KEYS)[:int(rng.integers(2, 12))]]
    path, exp = t.write(ks, int(rng.integers(0, 4)))
    before = tree_state(rec.tmp)
    ini = IniFile(path)
    rec.set(files=t.files, path=path)
    rec.eq(dict(ini.params), exp, 'value of every key')
    for k, v in exp.items():
        rec.check(ini.hasKey(k), 'has key')
        rec.eq(ini.string(k), v, 'string read')
        rec.eq(ini.isSet(k), v != '', 'set unless empty')
    rec.check(not ini.hasKey('nosuch') and not ini.isSet('nosuch') and not ini.hasKey('after_end'), 'other keys not defined')
    rec.eq(tree_state(rec.tmp), before, 'reading changes no file')
    # relative file names are relative to the main file
    for k, v in exp.items():
        if v and not os.path.isabs(v):
            rec.eq(ini.relativeFileName(k), os.path.join(os.path.dirname(path), v), 'file names relative to the main file', key=k)
            break
    # re-save elsewhere
    out = os.path.join(rec.tmp, 'saved.ini')
    ini.saveFile(out)
    st = tree_state(rec.tmp)
    st = {k: v for k, v in st.items() if not k.endswith('saved.ini')} if isinstance(st, dict) else st
    rec.eq(st, {k: v for k, v in before.items()}, 'saving touches no other file')
    if not any('$(' in v for v in exp.values()):
        rec.eq(dict(IniFile(out).params), exp, 're-read settings')
    # keep includes: only own settings, same meaning after saving
    ki = IniFile(path, keep_includes=True, expand_environment_variables=False)
    rec.check(set(ki.params) <= set(exp), 'own settings')
    o2 = os.path.join(os.path.dirname(path), 'saved_inc.ini')
    ki.saveFile(o2)
    rec.eq(dict(IniFile(o2).params), exp, 'saved with its includes has the same meaning')
    # saving without a name goes to the file read
    ini.params['extra_key'] = '17'
    mid = tree_state(rec.tmp)
    ini.saveFile()
    after = tree_state(rec.tmp)
    changed = [k for k in after if after[k] != mid.get(k)]
    rec.eq([os.path.basename(c) for c in changed], [os.path.basename(path)], 'saving without a name only changes the main file')
    if not any('$(' in v for v in exp.values()):
        rec.eq(dict(IniFile(path).params), dict(exp, extra_key='17'), 'updated main file')
    rec.sig('trees', t.files, tuple(sorted(t.feat)))


def typed(rng, rec):
    from getdist.inifile import IniFile, IniError
    P = {}
    fn = os.path.join(rec.tmp, 't.ini')
    n = int(rng.integers(1, 6)) if rng.random() < 0.8 else int(rng.integers(6, 200))
    i = int(rng.integers(-10 ** 6, 10 ** 6))
    f = float(rng.normal() * 10. ** rng.integers(-20, 21))
    b = bool(rng.random() < 0.5)
    fl = [float(v) for v in rng.normal(size=n)]
    il = [int(v) for v in rng.integers(-9, 9, n)]
    bl = [bool(v) for v in rng.random(n) < 0.5]
    sl = ['s%d' % v for v in rng.integers(0, 99, n)]
    s = 'word_%d/x y' % i
    how = str(rng.choice(['file', 'dict', 'saved']))
    if how == 'file':
        with open(fn, 'w') as g:
            g.write('i=%d\nf=%r\nb=%s\nfl=%s\nil=%s\nbl=%s\nsl=%s\ns=%s\nempty=\narr(1)=%d\narr(2)=%r\narr(3)=%s\nfbad=1.x\n' % (
                i, f, rng.choice(['T', 'True'] if b else ['F', 'False']), ' '.join(map(repr, fl)), '   '.join(map(str, il)),
                ' '.join(str(rng.choice(['T', 'True'] if v else ['F', 'False'])) for v in bl), '  '.join(sl), s, i, f, 'T' if b else 'F'))
        ini = IniFile(fn)
    else:
        ini = IniFile({'i': i, 'f': f, 'b': b, 'fl': list(fl), 'il': tuple(il), 'bl': list(bl), 'sl': list(sl), 's': s, 'empty': '', 'arr(1)': i, 'arr(2)': f,
                       'arr(3)': b, 'fbad': '1.x'})
        if how == 'saved':
            ini.saveFile(fn)
            ini = IniFile(fn)
    rec.set(how=how, params=dict(ini.params))

    def same(got, exp, msg):
        rec.check(type(got) == type(exp) and got == exp, msg, got=got, expected=exp)

    same(ini.int('i'), i, 'int')
    same(ini.float('f'), f, 'float')
    same(ini.float('i'), float(i), 'float of an int')
    same(ini.bool('b'), b, 'bool')
    same(ini.string('s'), s, 'string')
    same(list(ini.float_list('fl')), fl, 'float list')
    same(list(ini.int_list('il')), il, 'int list')
    rec.check(all(type(v) == int for v in ini.int_list('il')), 'int list types')
    same(list(ini.bool_list('bl')), bl, 'bool list')
    same(list(ini.list('sl')), sl, 'list')
    same(list(ini.split('sl')), sl, 'split')
    rec.check(np.array_equal(ini.ndarray('fl'), fl) and isinstance(ini.ndarray('fl'), np.ndarray), 'array')
    same(ini.array_int('arr', 1), i, 'indexed int')
    same(ini.array_float('arr', 2), f, 'indexed float')
    same(ini.array_bool('arr', 3), b, 'indexed bool')
    same(ini.array_string('arr', 1), str(i), 'indexed string')
    # number lists given as text, and other members of an indexed list
    q = IniFile({'l': [str(v) for v in il], 'm(0)': 0.5, 'm(1)': 1.5, 'm(12)': 12.5})
    same(list(q.float_list('l')), [float(v) for v in il], 'float list from text members')
    same(list(q.split('l', tp=int)), il, 'int list from text members')
    same([q.array_float('m', k) for k in (0, 1, 12)], [.5, 1.5, 12.5], 'indexed values')
    same(q.array_float('m', 2, 7.5), 7.5, 'default of a missing index')
    for v in ('t', 'f', 'yes', 'no', '1', '0', '.true.', 'x'):
        rec.raises(IniError, lambda: IniFile({'v': v}).bool('v'), 'invalid bool refused')
        rec.raises(IniError, lambda: IniFile({'v': 'T ' + v}).bool_list('v'), 'invalid bool list refused')
    # failures
    rec.raises(Exception, lambda: ini.int('fbad'), 'bad int refused')
    rec.raises(Exception, lambda: ini.float('fbad'), 'bad float refused')
    rec.raises(Exception, lambda: ini.float('s'), 'text as float refused')
    rec.raises(Exception, lambda: ini.bool('s'), 'text as bool refused')
    if how != 'dict':
        rec.raises(Exception, lambda: ini.int('f') if '.' in repr(f) or 'e' in repr(f) else int('x'), 'float as int refused')
    for g in (ini.int, ini.float, ini.string):
        rec.raises(IniError, lambda: g('nosuch'), 'missing value refused')
    rec.raises(IniError, lambda: ini.array_int('arr', 9), 'missing index refused')
    # defaults
    same(ini.int('nosuch', 7), 7, 'default int')
    same(ini.float('empty', 2.5), 2.5, 'empty uses default')
    same(ini.bool('nosuch', True), True, 'default bool')
    same(ini.bool('empty', True), True, 'empty bool uses default')
    same(ini.string('empty', 'z', allowEmpty=False), 'z', 'empty string not allowed')
    same(ini.string('empty', 'z'), '', 'empty string')
    same(list(ini.list('nosuch')), [], 'default list')
    same(list(ini.float_list('nosuch', [1.5])), [1.5], 'default float list')
    # attributes take the type of the existing value
    class O:
        pass

    o = O()
    o.i, o.f, o.b, o.s, o.sl, o.nosuch = 1, 1., not b, 'x', [], 5
    for k in ('i', 'f', 'b', 's', 'sl', 'nosuch'):
        ini.setAttr(k, o)
    same((o.i, o.f, o.b, o.s, list(o.sl), o.nosuch), (i, f, b, s, sl, 5), 'attributes')
    o.new = [0.5, 1.5]
    ini.getAttr(o, 'new')
    ini.getAttr(o, 'i')
    out = os.path.join(rec.tmp, 'o.ini')
    ini.saveFile(out)
    r = IniFile(out)
    same(list(r.float_list('new')), [0.5, 1.5], 'saved attribute list')
    same(r.int('i'), i, 'saved attribute')
    ini.delete_keys(['i', 'notthere'])
    rec.check(not ini.hasKey('i') and ini.hasKey('f'), 'deleted keys')
    rec.sig('typed', how, n, b)


def faults(rng, rec):
    """Broken files are reported, nothing is written."""
    from getdist.inifile import IniFile, IniError
    fn = os.path.join(rec.tmp, 'm.ini')
    inc = os.path.join(rec.tmp, 'i.ini')
    k = str(rng.choice(['dup', 'dupsame', 'dupinc', 'missinginc', 'missingdef', 'missing', 'nofile']))
    with open(inc, 'w') as f:
        f.write('k=2\nz=3\n')
    body = {'dup': 'k=1\na=2\nk=3\n', 'dupsame': 'k=1\na=2\nk=1\n', 'dupinc': 'INCLUDE(i.ini)\nk=1\n', 'missinginc': 'INCLUDE(no.ini)\nk=1\n', 'missingdef': 'DEFAULT(no.ini)\nk=1\n',
            'missing': '', 'nofile': ''}[k]
    with open(fn, 'w') as f:
        f.write(body)
    before = tree_state(rec.tmp)
    rec.set(k=k)
    if k in ('dup', 'dupsame', 'dupinc'):
        rec.raises(IniError, lambda: IniFile(fn), 'duplicate key reported')
    elif k in ('missinginc', 'missingdef'):
        rec.raises(IOError, lambda: IniFile(fn), 'missing file reported')
    elif k == 'missing':
        rec.raises(IOError, lambda: IniFile(os.path.join(rec.tmp, 'no.ini')), 'missing file reported')
    else:
        rec.raises(IniError, lambda: IniFile({'a': 1}).saveFile(), 'no file name reported')
    rec.eq(tree_state(rec.tmp), before, 'no file written')
    # caller's dictionary
    d = {'a': 1, 'b': '2'}
    ini = IniFile(d)
    ini.params['a'] = 5
    rec.eq(d, {'a': 1, 'b': '2'}, 'caller dictionary not modified')
    # placeholder replacement
    ini = IniFile({'a': 'x %T y', 'b': 'none'})
    ini.replaceTags('%T', 'Q')
    rec.eq(dict(ini.params), {'a': 'x Q y', 'b': 'none'}, 'replaced tags')
    rec.sig('faults', k)


def shipped(rng, rec):
    """Settings files of the repository: saved flat and with includes they mean the same."""
    from getdist.inifile import IniFile
    repo = os.environ.get('VREPO', '/repo')
    fs = []
    for b in ('', 'batch2', 'batch3', 'data', 'python/getdist', 'batch1', 'test'):
        d = os.path.join(repo, b)
        if os.path.isdir(d):
            fs += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.ini') or f.endswith('.dataset')]
    fn = fs[int(rng.integers(0, len(fs)))]
    rec.set(file=fn)
    try:
        ini = IniFile(fn)
    except (IOError, ValueError) as e:
        # refers to files that are not part of the repository
        rec.sig('unreadable', os.path.basename(fn))
        return
    except Exception as e:
        if 'duplicate' in str(e):
            rec.sig('duplicate', os.path.basename(fn))
            return
        raise
    out = os.path.join(rec.tmp, 's.ini')
    ini.saveFile(out)
    p = {k: v for k, v in ini.params.items()}
    rec.eq(dict(IniFile(out).params), p, 'saved and re-read')
    ki = IniFile(fn, keep_includes=True)
    ki.includes = [os.path.join(os.path.dirname(fn), q) for q in ki.includes]
    ki.defaults = [os.path.join(os.path.dirname(fn), q) for q in ki.defaults]
    ki.saveFile(out)
    rec.eq(dict(IniFile(out).params), p, 'saved with includes and re-read')
    rec.sig('shipped', os.path.basename(fn), len(p))


GROUPS = {'trees': (trees, 300, 6000), 'typed': (typed, 150, 3000), 'faults': (faults, 60, 600), 'shipped': (shipped, 60, 600)}
