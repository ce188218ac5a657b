SEEDS = {
'S20_des_selection': dict(property='C37', edits=[('python/planck/DES.py',
 "                ranges[items[0]][bin1][bin2] = [np.float64(x) for x in items[3:]]",
 "                ranges[items[0]][min(bin1, bin2)][max(bin1, bin2)] = [np.float64(x) for x in items[3:]]")],
 needs='a galaxy-shear correlation of a galaxy bin with a source bin of lower number',
 breaks='the angular range of such a pair is taken for the mirrored pair, so points are dropped or cut wrongly',
 demo='''
import types, numpy as np
camb = types.ModuleType('camb'); camb.__path__ = []
camb.model = types.ModuleType('camb.model'); camb.correlations = types.ModuleType('camb.correlations')
sys.modules.update({'camb': camb, 'camb.model': camb.model, 'camb.correlations': camb.correlations})
from planck.DES import DES_like
with tempfile.TemporaryDirectory() as d:
    w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    w('th.dat', '5\\n50\\n')
    w('xip.dat', '1 1 1 1\\n1 1 2 2\\n1 2 1 3\\n1 2 2 4\\n')
    w('gammat.dat', '1 2 1 5\\n1 2 2 6\\n2 1 1 7\\n2 1 2 8\\n')
    w('sel.dat', '#  type bin1 bin2 theta_min theta_max\\nxip 1 1 3 100\\nxip 1 2 10 100\\ngammat 1 2 10 100\\ngammat 2 1 3 100\\n')
    np.savetxt(os.path.join(d, 'cov.dat'), np.diag(np.arange(1., 9)))
    z = np.linspace(0.05, 1.5, 20)
    np.savetxt(os.path.join(d, 'nz.dat'), np.column_stack([z, z, z, np.exp(-(z - .6) ** 2 * 50), np.exp(-(z - .7) ** 2 * 50)]))
    w('x.dataset', """num_theta_bins = 2
theta_bins_file = th.dat
cov_file = cov.dat
intrinsic_alignment_model = DES1YR
data_types = xip gammat
data_selection = sel.dat
measurements[xip] = xip.dat
measurements[gammat] = gammat.dat
num_z_bins = 2
num_gal_bins = 2
nz_file = nz.dat
nz_gal_file = nz.dat
""")
    like = DES_like(os.path.join(d, 'x.dataset'), lmax=200)
    assert list(like.data_vector) == [1, 2, 4, 6, 7, 8], like.data_vector
'''),
'S21_tick_digits': dict(property='C36', edits=[('python/getdist/matplotlib_ext.py', "exponent = tup[1][1:].lstrip('0')", "exponent = tup[1][1:].strip('0')")],
 needs='a label in scientific notation whose exponent ends with zero (10, 20)',
 breaks='the label states 10^1 for 10^10',
 demo='''
from getdist.matplotlib_ext import SciFuncFormatter
f = SciFuncFormatter()
assert '10' in f(3e5, 0) and '{5}' in f(3e5, 0).replace(' ', ''), f(3e5, 0)
for n in (10, 20):
    assert '{%d}' % n in f(3. * 10 ** n, 0).replace(' ', ''), f(3. * 10 ** n, 0)
'''),
'S22_replacing_tag': dict(property='C38', edits=[('python/makePlots.py', "if args.compare_replacing[0] in item.data_set.names]", "if args.compare_replacing[0] in item.datatag]")],
 needs='data names of which one contains another, compared by replacing the shorter one',
 breaks='runs with the longer name are also compared (with themselves) though they do not have the data to be replaced',
 demo='''
import runpy
d = tempfile.mkdtemp()
import shutil
try:
    with open(os.path.join(d, 'seedgrid.py'), 'w') as f:
        f.write("""from paramgrid import batchjob
ini_dir = ''
defaults = []
g = batchjob.jobGroup('main')
g.params = [[]]
g.datasets = [batchjob.dataSet('BAO', 'a.ini'), batchjob.dataSet('BAOx', 'b.ini'), batchjob.dataSet('SN', 'c.ini')]
groups = [g]
""")
    sys.path.insert(0, d)
    import importlib
    from paramgrid import batchjob
    settings = importlib.import_module('seedgrid')
    path = os.path.join(d, 'grid') + os.sep
    b = batchjob.batchJob(path, '')
    os.makedirs(os.path.join(path, 'config'))
    b.makeItems(settings)
    for it in b.items():
        os.makedirs(it.chainPath, exist_ok=True)
        open(it.chainRoot + '_1.txt', 'w').write('1 2 3 4\\n')
    b.save()
    from getdist import plots
    seen = []
    plots.GetDistPlotter.plots_1d = lambda self, roots, *a, **k: seen.append(list(roots))
    plots.GetDistPlotter.export = lambda self, *a, **k: None
    sys.argv = ['makePlots.py', path, os.path.join(d, 'out'), '--compare_replacing', 'BAO', 'SN', 'BAOx']
    os.chdir(d)
    runpy.run_path(os.path.join(sys.path[1], 'makePlots.py'), run_name='__main__')
    assert seen == [['base_BAO', 'base_SN', 'base_BAOx']], seen
finally:
    shutil.rmtree(d)
'''),
'S23_stored_roots': dict(property='C39', edits=[('python/chainDumpPlot.py', "os.path.split(pat + '_?_*')", "os.path.split(pat + '_*_*')")],
 needs='stored spectra of another run whose name starts with that of the run asked for',
 breaks='the spectra of the other run are plotted too',
 demo='''
import numpy as np
import chainDumpPlot
with tempfile.TemporaryDirectory() as d:
    for i, r in enumerate(['run_1_3', 'run_2_1', 'run_lens_1_3']):
        with open(os.path.join(d, r + '.pars'), 'w') as h:
            h.write(' -log(Like) =  1.0\\n chi-sq    =  2.0\\n\\n    1  %.7E   tau   t\\n' % (i + 1))
        np.savetxt(os.path.join(d, r + '.theory_cl'), [[2, 10. * i], [3, 1.]])
    ls, pars, cls = chainDumpPlot.loadFiles(os.path.join(d, 'run'))
    assert len(cls) == 2 and sorted(c[0] for c in cls) == [0, 10], cls
'''),
}
