SEEDS = {
'S04_covmat_merge': dict(property='C16', edits=[('python/getdist/covmat.py',
 "                if C.paramNames[i] in params1 and C.paramNames[j] in params1:",
 "                if C.paramNames[i] in params1 and C.paramNames[j] in params1 and not (\n                        C.paramNames[i] in params2 and C.paramNames[j] in params2):")],
 needs='merging two proposal covariances which share at least one parameter',
 breaks='the entries of shared parameters come from the second matrix, not the first one',
 demo='''
import numpy as np
from getdist.covmat import CovMat
a = CovMat(matrix=np.array([[4., 1.], [1., 9.]]), paramNames=['x', 'y'])
b = CovMat(matrix=np.array([[25., 2.], [2., 36.]]), paramNames=['y', 'z'])
m = a.mergeCovmatWhereNew(b)
d = {(p, q): m.matrix[i, j] for i, p in enumerate(m.paramNames) for j, q in enumerate(m.paramNames)}
assert d['x', 'x'] == 4 and d['x', 'y'] == 1 and d['y', 'y'] == 9 and d['y', 'z'] == 2 and d['z', 'z'] == 36, d
'''),
'S05_bound_zero': dict(property='C14', edits=[('python/getdist/parampriors.py',
 "        if strings[0] != 'N' and strings[0] is not None and strings[0] != -np.inf:",
 "        if strings[0] != 'N' and strings[0] and strings[0] != -np.inf:")],
 needs='a lower bound of exactly zero given as a number (not as text)',
 breaks='hard lower prior bounds at zero given as numbers are silently dropped',
 demo='''
from getdist.parampriors import ParamBounds
b = ParamBounds()
b.setRange('x', (0, 2.))
b.setRange('y', (-1., 0))
b.setFixed('z', 0)
assert b.getLower('x') == 0 and b.getUpper('x') == 2 and b.getUpper('y') == 0, (b.lower, b.upper)
assert b.fixedValue('z') == 0
'''),
'S06_ini_paren': dict(property='C15', edits=[('python/getdist/inifile.py',
 "                    index = s.index(')')\n", "                    index = s.rindex(')')\n")],
 needs='a value with an environment placeholder followed by another closing parenthesis',
 breaks='everything up to the last parenthesis is taken as the variable name, so the value loses text',
 demo='''
import os
os.environ['VSEED_A'] = 'aa'
os.environ['VSEED_B'] = 'bb'
from getdist.inifile import IniFile
i = IniFile()
assert i.expand_placeholders('$(VSEED_A)/x') == 'aa/x'
assert i.expand_placeholders('p$(VSEED_A)/$(VSEED_B)q') == 'paa/bbq'
assert i.expand_placeholders('$(VSEED_A) (b)') == 'aa (b)'
'''),
'S07_convolve_cache': dict(property='C11', edits=[('python/getdist/convolve.py',
 "            key = (fsize, y.size, id(y))", "            key = (y.size, id(y))")],
 needs='one kernel convolved, with the same cache, with arrays of different sizes',
 breaks='the cached transform of the kernel is reused at another transform size, giving an error or wrong values',
 demo='''
import numpy as np
from getdist.convolve import convolveFFT
rng = np.random.default_rng(3)
k = rng.random(15)
cache = {}
for n in (64, 200, 64, 333):
    x = rng.random(n)
    r = convolveFFT(x, k, mode='full', cache=cache, cache_args=[2])
    assert np.allclose(r, np.convolve(x, k)), n
'''),
'S08_mixture_order': dict(property='C17', edits=[('python/getdist/gaussian_mixtures.py',
 "covs = [cov[np.ix_(indices, indices)] for cov in self.covs]",
 "covs = [cov[np.ix_(sorted(indices), sorted(indices))] for cov in self.covs]")],
 needs='a marginalized mixture asked for in another parameter order than that of the mixture',
 breaks='means are in the requested order but covariances in the original one',
 demo='''
import numpy as np
from getdist.gaussian_mixtures import MixtureND
g = MixtureND([[0, 1, 2.]], [np.diag([1., 4., 9.])], names=['a', 'b', 'c'])
m = g.marginalizedMixture(['c', 'a'])
assert np.allclose(m.means[0], [2, 0]) and np.allclose(m.covs[0], np.diag([9., 1.])), (m.means, m.covs)
'''),
'S09_grid_ambiguous': dict(property='C25', edits=[('python/getdist/chain_grid.py',
 "                if len(items) == 1:\n                    return items[0]",
 "                if len(items) >= 1:\n                    return items[0]")],
 needs='a directory grid with two chains whose names differ only in the order of their tags, asked for in a third order',
 breaks='an ambiguous name silently resolves to one of the chains',
 demo='''
import os, tempfile
from getdist.chain_grid import ChainDirGrid
with tempfile.TemporaryDirectory() as d:
    for tag, root in (('one', 'base_x_y_z'), ('two', 'base_y_x_z')):
        os.makedirs(os.path.join(d, tag))
        for i in '12':
            open(os.path.join(d, tag, root + '_' + i + '.txt'), 'w').write('1 2 3\\n')
        open(os.path.join(d, tag, root + '.paramnames'), 'w').write('a b\\n')
    g = ChainDirGrid(d)
    assert g.resolve_root('base_y_x_z').chainRoot.endswith('base_y_x_z')
    try:
        item = g.resolve_root('base_z_y_x')
    except ValueError:
        pass
    else:
        assert item is None, item.chainRoot
'''),
'S10_cobaya_zero': dict(property='C23', edits=[('python/getdist/cobaya_interface.py',
 "    return lims[0] if lims[0] != -np.inf else None, lims[1] if lims[1] != np.inf else None",
 "    return lims[0] or None, lims[1] if lims[1] != np.inf else None")],
 needs='a Cobaya parameter with a prior starting exactly at zero',
 breaks='the hard lower bound at zero is lost',
 demo='''
from getdist.cobaya_interface import get_range
assert get_range({'prior': {'min': 0, 'max': 3}}) == (0, 3)
assert get_range({'prior': [-1, 0]}) == (-1, 0)
lo, hi = get_range({'prior': {'dist': 'norm', 'loc': 0, 'scale': 1}})
assert lo is None and hi is None, (lo, hi)
'''),
'S11_delete_idmin': dict(property='C28', edits=[('python/paramgrid/jobqueue.py',
 "                jobId_min is not None and jobId >= jobId_min) and not jobIdStr in jobIds:",
 "                jobId_min is not None and jobIdStr >= str(jobId_min)) and not jobIdStr in jobIds:")],
 needs='deleting jobs from a minimum id when the ids have different numbers of digits',
 breaks='jobs are selected by comparing ids as text, so older jobs are cancelled and newer ones are left',
 demo='''
import os, tempfile
d = tempfile.mkdtemp()
from paramgrid import jobqueue
done = []
jobqueue.subprocess = type('S', (), {'check_output': staticmethod(lambda cmd, **k: done.append(cmd) or '')})
ids = ['98', '99', '100', '101']
jobqueue.queue_job_details = lambda *a, **k: (ids if k.get('running', True) and k.get('queued', True) else [], [], [])
class J(object):
    pass
os.makedirs(os.path.join(d, 'scripts'))
index = jobqueue.jobIndex()
for i in ids:
    j = J()
    j.jobId, j.jobName, j.names, j.subTime = i, 'job' + i, ['root' + i], 0
    index.addJob(j)
jobqueue.loadJobIndex = lambda path, *a: index
jobqueue.saveJobIndex = lambda *a: None
jobqueue.deleteJobs(d, jobId_min=99)
import shutil
shutil.rmtree(d)
gone = sorted(int(c.split()[-1]) for c in done)
assert gone == [99, 100, 101], gone
'''),
'S12_importance_dup': dict(property='C26', edits=[('python/paramgrid/batchjob.py',
 "            if len(set(impRun.names).intersection(self.data_set.names)) > 0:",
 "            if set(impRun.names).issubset(self.data_set.names):")],
 needs='an importance run adding several data sets, one of which the parent run already has',
 breaks='an importance job is made which counts a data set twice',
 demo='''
from paramgrid.batchjob import jobItem, dataSet, importanceSetting
j = jobItem('/nonexistent/', ['omegak'], dataSet(['A', 'B'], [{}, {}]))
j.makeImportance([importanceSetting(['B', 'C'], [{}, {}]), importanceSetting(['D'], [{}])])
names = [i.name for i in j.importanceJobs()]
assert len(names) == 1 and names[0].endswith('_post_D'), names
'''),
'S13_all_chains': dict(property='C32', edits=[('python/paramgrid/batchjob.py',
 "        return all([self.chainExists(i + 1) for i in range(num_chains)])",
 "        return self.chainExists(num_chains)")],
 needs='a run whose last chain file is there but an earlier one is missing (or empty)',
 breaks='an incomplete set of chains is reported as complete',
 demo='''
import os, tempfile
from paramgrid.batchjob import jobItem, dataSet
with tempfile.TemporaryDirectory() as d:
    j = jobItem(d + os.sep, ['omegak'], dataSet(['A'], [{}]))
    os.makedirs(os.path.dirname(j.chainRoot))
    for i in (1, 3):
        open('%s_%d.txt' % (j.chainRoot, i), 'w').write('1 2 3\\n')
    assert j.allChainExists(1) and not j.allChainExists(2) and not j.allChainExists(3)
    open('%s_2.txt' % j.chainRoot, 'w').write('1 2 3\\n')
    assert j.allChainExists(3)
'''),
'S14_tasks_total': dict(property='C34', edits=[('python/paramgrid/jobqueue.py',
 "    vals['NUMTASKS'] = j.nchains * j.runsPerJob", "    vals['NUMTASKS'] = j.chainsPerNode * j.runsPerJob")],
 needs='a job spread over more than one node, with a template which asks for the total number of tasks',
 breaks='the submission script asks for the tasks of one node only',
 demo='''
import os, tempfile
from paramgrid import jobqueue
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, 'scripts'))
    t = os.path.join(d, 'template')
    open(t, 'w').write('#!/bin/bash\\n#N ##NUMTASKS## ##NUMNODES## ##MPIPERNODE##\\n##COMMAND##\\n')
    here = os.getcwd()
    os.chdir(d)
    try:
        jobqueue.submitJob('job', ['a', 'b'], nodes=3, chainsPerNode=2, coresPerNode=8, mem_per_node=1, walltime='1',
                           job_template=t, program='./prog', queue='', qsub='echo', no_sub=True)
        text = open(os.path.join(d, 'scripts', 'job_subscript')).read()
    finally:
        os.chdir(here)
    n = [l.split()[1:] for l in text.splitlines() if l.startswith('#N')][0]
    assert n == ['12', '3', '4'], n
'''),
'S15_scatter_weights': dict(property='C22', edits=[('python/getdist/mcsamples.py',
 "            fac = np.sum(self.weights) / np.sum(samps2.weights)", "            fac = self.numrows / samps2.numrows")],
 needs='combining two weighted chains whose mean weights differ', breaks='the two chains do not contribute in the requested proportion',
 demo='''
import numpy as np
from getdist import MCSamples
rng = np.random.default_rng(1)
a = MCSamples(samples=rng.normal(0, 1, (500, 1)), weights=np.full(500, 8.), names=['x'], settings={'ignore_rows': 0})
b = MCSamples(samples=rng.normal(50, 1, (500, 1)), weights=np.full(500, 1.), names=['x'], settings={'ignore_rows': 0})
c = a.getCombinedSamplesWithSamples(b, sample_weights=(1, 1))
x = c.samples[:, 0]
fa, fb = np.sum(c.weights[x < 25]), np.sum(c.weights[x > 25])
assert abs(fa / fb - 1) < 1e-6, fa / fb
'''),
'S16_plot_cache': dict(property='C24', edits=[('python/getdist/plots.py',
 "        key = (param1.name, param2.name, likes, conts)\n", "        key = (param1.name, param2.name, likes)\n")],
 needs='one pair of parameters drawn twice by the same plotter with different numbers of contours',
 breaks='the second plot gets the contour levels of the first one',
 demo='''
import numpy as np
import matplotlib
matplotlib.use('Agg')
from getdist import MCSamples, plots
rng = np.random.default_rng(1)
s = MCSamples(samples=rng.normal(size=(3000, 2)), names=['x', 'y'], settings={'ignore_rows': 0}, label='s')
g = plots.get_subplot_plotter()
d1 = g.sample_analyser.get_density_grid(s, s.paramNames.parWithName('x'), s.paramNames.parWithName('y'), conts=1)
n1 = len(np.atleast_1d(d1.contours))
d2 = g.sample_analyser.get_density_grid(s, s.paramNames.parWithName('x'), s.paramNames.parWithName('y'), conts=2)
assert n1 == 1 and len(np.atleast_1d(d2.contours)) == 2, (d1.contours, d2.contours)
'''),
'S17_nolimit_range': dict(property='C10', edits=[('python/getdist/mcsamples.py',
 "                lim = [par.range_min, par.range_max]", "                lim = [par.param_min, par.param_max]")],
 needs='a parameter which is not constrained at all: cut off by its prior on both sides, with none of the limits significant',
 breaks='the range reported for an unconstrained parameter is that of the samples and not that of the prior',
 demo='''
import numpy as np
from getdist import MCSamples
rng = np.random.default_rng(2)
x = rng.uniform(0, 1, (4000, 1))
s = MCSamples(samples=x, names=['x'], ranges={'x': (0, 1)}, settings={'ignore_rows': 0})
p = s.getMargeStats().parWithName('x')
lim = p.limits[-1]
assert lim.limitTag() == 'none', lim.limitTag()
assert (lim.lower, lim.upper) == (s.paramNames.parWithName('x').range_min, s.paramNames.parWithName('x').range_max), (lim.lower, lim.upper)
assert abs(lim.lower) < 1e-12 and abs(lim.upper - 1) < 1e-12, (lim.lower, lim.upper)
'''),
'S18_extra_opts': dict(property='C27', edits=[('python/paramgrid/gridconfig.py',
 "            if job_param_extra is not None and param in job_param_extra:",
 "            elif job_param_extra is not None and param in job_param_extra:")],
 needs='a grid with extra options of a varied parameter both in the batch-wide settings and for a group of jobs',
 breaks='the generated run settings lose the options of the group',
 demo='''
import os, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'vseed_settings.py'), 'w').write(
        "from paramgrid import batchjob\\n"
        "ini_dir = 'batch3/'\\ndefaults = ['common.ini']\\n"
        "params = {'omegak': '0 -1 1 0.1 0.1', 'w': '-1 -2 0 0.1 0.1'}\\n"
        "param_extra_opts = {'omegak': {'opt_all': 1}}\\n"
        "g = batchjob.jobGroup('main')\\n"
        "g.params = [['omegak'], ['w']]\\n"
        "g.datasets = [batchjob.dataSet(['A'], [{}])]\\n"
        "g.param_extra_opts = {'omegak': {'opt_group': 2}, 'w': {'opt_w': 3}}\\n"
        "groups = [g]\\n")
    sys.path.insert(0, d)
    from paramgrid import gridconfig
    from getdist.inifile import IniFile
    gridconfig.makeGrid(os.path.join(d, 'grid'), settingName='vseed_settings')
    from paramgrid import batchjob
    got = {}
    for item in batchjob.readobject(os.path.join(d, 'grid') + os.sep).items(wantSubItems=False):
        for line in open(item.iniFile()):
            if line.startswith('opt_'):
                got.setdefault('_'.join(item.param_set), {})[line.split('=')[0].strip()] = line.split('=')[1].strip()
    assert got == {'omegak': {'opt_all': '1', 'opt_group': '2'}, 'w': {'opt_w': '3'}}, got
'''),
'S19_bestfit_parts': dict(property='C19', edits=[('python/getdist/types.py',
 "for likePart in textFileLines[ix + 2:]:", "for likePart in textFileLines[ix + 3:]:")],
 needs='a minimization result file with a breakdown of likelihoods',
 breaks='the first likelihood of the file is dropped',
 demo='''
import os, tempfile
from getdist.types import BestFit
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, 'a.minimum')
    open(fn, 'w').write(' -log(Like) =  10.5\\n chi-sq    =  21.0\\n\\n    1  1.0000000E+00   x    x\\n\\n    2  2.0000000E+00   f   f\\n\\n'
        '    3  3.0000000E+00   d    d\\n\\n -log(Like)     chi-sq   data\\n      5.000     10.000   CMB: one = plik\\n'
        '      5.500     11.000   BAO: two\\n')
    b = BestFit(fn)
    got = [(k, c.name, c.chisq) for k, c in b.chiSquareds]
assert got == [('CMB', 'plik', 10.), ('BAO', 'two', 11.)], got
'''),
}
