"""Plots of forecasts: contours, their ranges and colours, bars, gains of the figure of merit, grids of spectra, correlation maps."""
import itertools
import json
from types import SimpleNamespace as ns
from pathlib import Path
from pyver.api import contract
from contracts.p22_storage import scratch

FP = 'seyfert.fisher.fisher_plot'
FA = 'seyfert.fisher.fisher_analysis'
FR = 'seyfert.fisher.fisher_results'
BP = 'seyfert.notebook_helpers.barplots'
FG = 'seyfert.notebook_helpers.fom_gain_plots'
CT = 'seyfert.notebook_helpers.contours'
CP = 'seyfert.plot_utils.cl_plot'
PM = 'seyfert.plot_utils.misc'
PL = FP + '.FisherPlotter.'
PC = FP + '.FisherPlotConfig.'


class Anything:
    """stands for the objects of the drawing library whose details do not matter"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: Anything()

    def __getitem__(self, k):
        return Anything()

    def __iter__(self):
        return iter([Anything(), Anything()])


class Axes:
    """records what is drawn in one panel"""
    def __init__(self, off=False):
        self.calls = []
        self.spines = {s: Anything() for s in ('left', 'right')}
        self.xaxis = self.yaxis = Anything()
        self.transAxes = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: self.calls.append((n, a, k))

    def of(self, *names):
        return [(a, k) for n, a, k in self.calls if n in names]


class Grid:
    def __init__(self, n, m=None):
        self.shape = (n, n if m is None else m)
        self.rows = [[Axes() for _ in range(self.shape[1])] for _ in range(n)]

    def __getitem__(self, ij):
        i, j = ij
        return self.rows[i][j]


class Shape:
    def __init__(self, *a, **k):
        self.a, self.k = a, k


def pair(a, k):
    """the two ends handed over, as two values or as one pair"""
    v = list(k.values()) if k else (list(a[0]) if len(a) == 1 else list(a))
    return v[0], v[1]


def plotting(c, names, pars, own=None, native=False):
    """a plotter of an analysis with some matrices and parameters, and its settings"""
    if not native:
        c.stub(FP + ':matplotlib', ns(cm=ns(get_cmap=lambda name: lambda x: ('colour', x))))
    an = c.target(FA + ':FisherAnalysis')(cosmo_pars_fiducial={p: c.real('fiducial_' + p, conc=(-1, 1)) for p in pars})
    pd = c.target(FA + ':pd')
    ms = {}
    for n in names:
        s = {p: c.real(f'sigma_{n}_{p}', positive=True, conc=(0.2, 2)) for p in pars}
        r = {}
        for a, b in itertools.combinations(pars, 2):
            r[(a, b)] = r[(b, a)] = c.real(f'r_{n}_{a}_{b}', conc=(-0.3, 0.3))
            c.require(c.and_(r[(a, b)] > -1, r[(a, b)] < 1))
        ms[n] = ns(inverse=pd.DataFrame([[s[a] * s[b] * (1 if a == b else r[(a, b)]) for b in pars] for a in pars], index=list(pars), columns=list(pars)), s=s)
    an.fisher_matrices = {n: ms[n] for n in names}
    an._fishers_order = list(names)
    an.fishers_order = list(names)
    an.marginalized_errors = pd.DataFrame([[ms[n].s[p] for p in pars] for n in names], index=list(names), columns=list(pars))
    an.name = 'forecast'
    K = c.target(FP + ':FisherPlotConfig')
    settings = {'dimensions': {'fig_size_x_cm': 15, 'fig_size_y_cm': 15, 'subplots_spacing': {'horizontal': 0.08, 'vertical': 0.08}},
                'graphics': {'dpi': 50, 'cl_alpha_dict': {'gauss': {'0.68': 0.25, '0.95': 0.15}, 'ellipse': {'0.95': 0.2, '0.5': 0.4}}, 'color_map': 'rainbow'},
                'axes': {'label_size': 10, 'x_label_pad': 10, 'y_label_pad': 10, 'borders_width': 1, 'lines_width': 1,
                         'ticks': {'width': 1, 'length': 3, 'label_size': 8, 'number': 3, 'digits': 2, 'x_tick_labels_rot': 0, 'y_tick_labels_rot': 0}},
                'legend': {'loc': 'lower left', 'bbox_to_anchor': [0.65, 0.7], 'fontsize': 10, 'title_fontsize': 14}, 'text_box': {'dx_leg': 0.018, 'dy_leg': -0.025}, 'usetex': False}
    cfg = K(n_cosmo_pars=len(pars))
    cfg.loadFromConfigDict(settings)
    pl = c.target(FP + ':FisherPlotter')(pars_to_plot=list(own or pars), config=cfg, fisher_analysis=an)
    pl.params_ticks_fmts = {p: '%.2g' for p in pars}
    return pl, an, ms, settings


TEX = {'h': '$h$', 'w0': '$w_0$', 'ns': '$n_s$', 'Omm': r'$\Omega_m$'}


@contract('P29', [PL + f for f in ('drawContours', 'drawEllipsesForParametersAndObs', 'drawGaussianForParameterAndObs', 'setPlotProperties', 'setPlotAxesLabels', 'setPlotTicks', 'setXTicks',
                                   'setYTicks', 'setPlotRange', 'getColorForFisher', '__init__', 'fishers_order', 'fisher_matrices')] + [PC + 'loadFromConfigDict', PC + 'setGraphicsProperties'], weight=3)
def panels_of_a_triangle(c):
    """every panel below the diagonal has, for each forecast and confidence level, the ellipse of its own two parameters, the column's
    along the horizontal axis and the row's along the vertical one, in the ranges of those parameters; the diagonal has the curves of its
    parameter; every forecast has one colour of its own in all panels"""
    names, pars, own, order = c.choice('case', [
        (['WL'], ['h', 'w0'], ['h', 'w0'], None), (['WL', 'GCph'], ['w0', 'ns', 'h'], ['w0', 'ns', 'h'], None), (['GCph', 'WL', 'GCsp'], ['w0', 'ns', 'h'], ['h', 'ns', 'w0'], None),
        (['GCph', 'WL', 'GCsp'], ['h', 'ns', 'w0'], ['ns', 'w0'], ['GCsp', 'WL', 'GCph']), (['WL', 'GCph'], ['h', 'w0'], ['w0', 'h'], ['GCph', 'WL'])])
    pl, an, ms, settings = plotting(c, names, pars, own)
    c.stub(FP + ':Ellipse', type('Ellipse', (Shape,), {}))
    c.stub(FP + ':ticker', ns(FormatStrFormatter=lambda fmt: fmt))
    ranges = {p: (c.real('low_' + p, conc=(-3, -1)), c.real('high_' + p, conc=(1, 3))) for p in pars}
    pl.plot_ranges = dict(ranges)
    n = len(own)
    pl.axes = Grid(n)
    pl.drawContours(order=order)
    shown = order or names
    colours = {}

    def colour(name, x):
        x = x[1]
        if name in colours:
            c.ensure('one colour', c.eq(colours[name], x))
        colours[name] = x
    for i, j in itertools.product(range(n), range(n)):
        ax = pl.axes[i, j]
        px, py = own[j], own[i]
        if i < j:
            c.ensure('upper panels hidden', ax.of('axis') == [(('off',), {})] and not ax.of('add_artist', 'add_patch', 'plot', 'fill_between'))
            continue
        c.ensure('shown', not any(a == ('off',) for a, k in ax.of('axis')))
        (xl,) = ax.of('set_xlim')
        lo, hi = pair(*xl)
        c.ensure('horizontal range', c.and_(c.eq(lo, ranges[px][0]), c.eq(hi, ranges[px][1])))
        for a, k in ax.of('set_xticks'):
            t = a[0]
            c.ensure('ticks', c.len(t) == settings['axes']['ticks']['number'])
            c.ensure('ticks', c.and_(c.eq(c.get(t, 0), lo), c.eq(c.get(t, 1), (lo + hi) / 2), c.eq(c.get(t, 2), hi)))
        labels = [a[0] for a, k in ax.of('set_xlabel')]
        c.ensure('horizontal name', labels == ([TEX[px]] if i == n - 1 else []))
        labels = [a[0] for a, k in ax.of('set_ylabel')]
        if i == j:
            c.ensure('no ellipses', not ax.of('add_artist', 'add_patch'))
            levels = settings['graphics']['cl_alpha_dict']['gauss']
            lines, fills = ax.of('plot'), ax.of('fill_between')
            c.ensure('curves', len(lines) == len(fills) == len(shown) * len(levels))
            for k, (f, (cl, alpha)) in enumerate(itertools.product(shown, levels.items())):
                g = an.computeGaussianInfoDictForObsAndCL(px, f, float(cl), *ranges[px])
                (la, lk), (fa, fk) = lines[k], fills[k]
                for what in (la, fa):
                    c.ensure('curve', c.len(what[0]) == c.len(g['x']))
                    c.forall('curve', [c.len(g['x'])], lambda q, what=what: c.and_(c.eq(c.get(what[0], q), c.get(g['x'], q)), c.eq(c.get(what[1], q), c.get(g['y'], q))))
                c.forall('level', [c.len(g['x'])], lambda q: c.eq(c.get(fk['where'], q), c.get(g['cl_mask'], q)))
                c.ensure('shade', c.eq(fk['alpha'], alpha))
                colour(f, lk['color'])
                colour(f, fk['color'])
        else:
            (yl,) = ax.of('set_ylim')
            lo, hi = pair(*yl)
            c.ensure('vertical range', c.and_(c.eq(lo, ranges[py][0]), c.eq(hi, ranges[py][1])))
            for a, k in ax.of('set_yticks'):
                t = a[0]
                c.ensure('ticks', c.and_(c.eq(c.get(t, 0), lo), c.eq(c.get(t, 1), (lo + hi) / 2), c.eq(c.get(t, 2), hi)))
            c.ensure('vertical name', labels == ([TEX[py]] if j == 0 else []))
            c.ensure('no curves', not ax.of('plot', 'fill_between'))
            levels = settings['graphics']['cl_alpha_dict']['ellipse']
            es = [a[0] for a, k in ax.of('add_artist', 'add_patch')]
            c.ensure('ellipses', len(es) == 2 * len(shown) * len(levels))
            for k, (f, (cl, alpha)) in enumerate(itertools.product(shown, levels.items())):
                want = an.computeEllipseInfoDictForObsAndCL(px, py, f, float(cl))
                two = es[2 * k:2 * k + 2]
                c.ensure('filled and outlined', sorted(e.k['fill'] for e in two) == [False, True])
                for e in two:
                    c.ensure('centre', c.and_(c.eq(e.k['xy'][0], want['xy'][0]), c.eq(e.k['xy'][1], want['xy'][1])))
                    c.ensure('axes', c.and_(c.eq(e.k['width'], want['width']), c.eq(e.k['height'], want['height']), c.eq(e.k['angle'], want['angle'])))
                    colour(f, e.k['facecolor'])
                    colour(f, e.k['edgecolor'])
                    if e.k['fill']:
                        c.ensure('shade', c.eq(e.k['alpha'], alpha))
    for f, g in itertools.combinations(shown, 2):
        c.ensure('own colour', c.not_(c.eq(colours[f], colours[g])))
    c.ensure('colours of the legend', c.and_(*[c.eq(pl.getColorForFisher(f)[1], colours[f]) for f in shown]))


@contract('P29', [PL + f for f in ('computePlotRangeForParameter', 'setParametersPlotRanges', 'writeParameterPlotRangesToFile', 'setParamsToPlot', 'plot_ranges')] + [PC + 'loadParameterPlotRangesFromFile'], weight=2)
def ranges_of_a_plot(c):
    """the range of a parameter is the mean over the forecasts of their ranges at 99 per cent; ranges read are those of the file, which is
    replaced only when asked; the parameters plotted are the ones asked for, or all in alphabetical order"""
    names = c.choice('forecasts', [['WL'], ['WL', 'GCph'], ['GCph', 'WL', 'GCsp']])
    pars = ['w0', 'ns', 'h']
    pl, an, ms, settings = plotting(c, names, pars)
    own = c.choice('plotted', ['all', ['ns'], ['w0', 'h'], ('h', 'ns', 'w0')])
    pl.setParamsToPlot(own)
    own = sorted(pars) if own == 'all' else list(own)
    c.ensure('parameters', pl.pars_to_plot == own and pl.n_cosmo_pars == len(own))
    pl.plot_ranges = {'old': (0, 1)}
    pl.setParametersPlotRanges()
    c.ensure('of the parameters plotted', set(pl.plot_ranges) == set(own))
    k = c.sqrt(2) * c.special().erfinv(c.frac(99, 100) if c.sym else 0.99)
    for p in own:
        s = sum(ms[n].s[p] for n in names) / len(names)
        lo, hi = pl.plot_ranges[p]
        c.ensure('range', c.and_(c.eq(lo, an.getParFiducialValue(p) - k * s), c.eq(hi, an.getParFiducialValue(p) + k * s)))
    with scratch() as d:
        f = d / 'ranges.json'
        there = {p: [float(q), q + 1.5] for q, p in enumerate(pars)}
        f.write_text(json.dumps(there))
        pl.setParametersPlotRanges(ranges_file=c.choice('as', [str, Path])(f))
        c.ensure('read', {p: list(v) for p, v in pl.plot_ranges.items()} == there)
        c.raises('no file', FileNotFoundError, lambda: pl.setParametersPlotRanges(ranges_file=d / 'none.json'))
        pl.plot_ranges = {'h': (0.5, 2.5)}
        pl.writeParameterPlotRangesToFile(f)
        c.ensure('kept', json.loads(f.read_text()) == there)
        pl.writeParameterPlotRangesToFile(f, overwrite=True)
        c.ensure('replaced', json.loads(f.read_text()) == {'h': [0.5, 2.5]})
        pl.writeParameterPlotRangesToFile(d / 'new.json')
        c.ensure('written', json.loads((d / 'new.json').read_text()) == {'h': [0.5, 2.5]})
        pl.config.loadParameterPlotRangesFromFile(d / 'new.json')
        c.ensure('read again', list(pl.plot_ranges['h']) == [0.5, 2.5])


def native_plotting(c, names, pars, own=None):
    import matplotlib
    matplotlib.use('Agg')
    return plotting(c, names, pars, own, native=True)


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


@contract('P29', [PL + f for f in ('makeTriangularPlot', 'addPlotLegend', 'getLegendPatch', 'setPlotConfig', 'setUpDefault', 'addInfoTextBox')] + [PC + '__init__'], mode='bounded', trials=6,
          bound='up to 3 forecasts of 3 parameters, drawn with the real library')
def triangle_drawn(c):
    """the figure drawn has the contours of every forecast in the panel of its parameters, and a legend giving each forecast its colour"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.patches import Ellipse
    from matplotlib.colors import to_rgba
    names = c.choice('forecasts', [['WL'], ['WL', 'GCph'], ['GCph', 'WL', 'GCsp']])
    pars = c.choice('parameters', [['h', 'w0'], ['w0', 'ns', 'h']])
    pl, an, ms, settings = native_plotting(c, names, pars)
    own = c.choice('plotted', ['all', pars[::-1]])
    pl.setParamsToPlot(own)
    own = sorted(pars) if own == 'all' else own
    with scratch() as d:
        f = d / 'settings.json'
        f.write_text(json.dumps({'plot_settings': settings}))
        if c.choice('settings', ['default', 'file']) == 'default':
            pl.setUpDefault()
            own = sorted(pars)
            with open(c.target(FP + ':fsu.config_files_dir')() / 'results_config.json') as jsf:
                settings = json.load(jsf)['plot_settings']
        else:
            c.raises('no settings', ValueError, lambda: pl.setPlotConfig())
            pl.setPlotConfig(config_file=f)
            pl.setParametersPlotRanges()
        order = c.choice('order', [None, names[::-1]])
        pl.makeTriangularPlot(outdir=None, order=order)
        shown = order or names
        fig, axes = pl.figure, pl.axes
        n = len(own)
        c.ensure('panels', axes.shape == (n, n))
        (leg,) = fig.legends
        handles = leg.legend_handles if hasattr(leg, 'legend_handles') else leg.legendHandles
        tex = {'WL': r'$\mathrm{WL}$', 'GCph': r'$\mathrm{GC_{ph}}$', 'GCsp': r'$\mathrm{GC_{sp}}$'}
        c.ensure('legend names', [t.get_text() for t in leg.get_texts()] == [tex[f] for f in shown])
        colours = {f: tuple(to_rgba(h.get_facecolor())) for f, h in zip(shown, handles)}
        c.ensure('legend colours', len(set(colours.values())) == len(shown))
        levels = settings['graphics']['cl_alpha_dict']['ellipse']
        for i, j in itertools.product(range(n), range(n)):
            ax = axes[i, j]
            es = [a for a in ax.get_children() if isinstance(a, Ellipse)]
            if i < j:
                c.ensure('hidden', not ax.axison and not es)
                continue
            c.ensure('shown', ax.axison)
            c.ensure('range', all(near(x, y) for x, y in zip(ax.get_xlim(), pl.plot_ranges[own[j]])))
            if i == j:
                lines = [l for l in ax.get_lines()]
                for f in shown:
                    mine = [l for l in lines if tuple(to_rgba(l.get_color())) == colours[f]]
                    c.ensure('curve', len(mine) == len(settings['graphics']['cl_alpha_dict']['gauss']))
                    for l in mine:
                        import numpy as np
                        x, y = l.get_xdata(), l.get_ydata()
                        c.ensure('curve values', np.allclose(y, np.exp(-(x - an.getParFiducialValue(own[i])) ** 2 / (2 * ms[f].s[own[i]] ** 2))))
                continue
            c.ensure('range', all(near(x, y) for x, y in zip(ax.get_ylim(), pl.plot_ranges[own[i]])))
            for f in shown:
                mine = [e for e in es if tuple(to_rgba(e.get_edgecolor()))[:3] == colours[f][:3]]
                c.ensure('ellipses', len(mine) == 2 * len(levels))
                for cl in levels:
                    w = an.computeEllipseInfoDictForObsAndCL(own[j], own[i], f, float(cl))
                    same = [e for e in mine if near(e.width, w['width']) and near(e.height, w['height']) and near(e.angle, w['angle']) and near(e.center[0], w['xy'][0]) and near(e.center[1], w['xy'][1])]
                    c.ensure('ellipse', len(same) == 2)
        plt.close(fig)
        if c.choice('saved', [True, False]):
            pl.makeTriangularPlot(outdir=d)
            c.ensure('file', [x.name for x in d.glob('*.pdf')] == ['contour_forecast.pdf'])
        plt.close('all')


@contract('P29', [FG + '.single_plot_fom_gain', FG + '.comparison_plot_fom_gain'], mode='bounded', trials=10, bound='random tables of 3 matrices and up to 4 numbers of bins')
def gains_drawn(c):
    """the gains drawn for a matrix are its own, against the numbers of bins, with and without the reduced shot noise"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pandas as pd
    bins = c.choice('bins', [[4], [4, 12], [12, 4, 40, 24]])
    names = ['WL', 'GCph', 'GCsp']
    v = {(n, r, b): c.real(f'{n}_{r}_{b}', positive=True) for n in names for r in (False, True) for b in bins}
    keys = [(n, r, b) for n in names for r in (True, False) for b in bins]
    df = pd.DataFrame({'h': [0.0] * len(keys), 'FoM': [v[k] for k in keys]}, index=pd.MultiIndex.from_tuples(keys, names=['fisher', 'shot_noise_sp_reduced', 'n_sp_bins']))
    asked = c.choice('asked', [['WL'], ['GCsp', 'WL']])
    fig, axs = c.target(FG + ':comparison_plot_fom_gain')(df, 'GCph', asked, logscale=c.choice('log', [True, False]))
    for reduced, ax in zip((False, True), axs):
        lines = ax.get_lines()
        c.ensure('lines', len(lines) == len(asked))
        for f, l in zip(asked, lines):
            c.ensure('values', dict(zip([int(x) for x in l.get_xdata()], l.get_ydata())) == {b: v[(f, reduced, b)] for b in bins})
    plt.close(fig)


@contract('P29', [BP + '.ErrorBarPlotter.' + f for f in ('__init__', 'validateDataframe', 'sliceResultsForFishersAndNbins', 'doSingleErrorBarPlot', 'doPairErrorBarPlot')], mode='bounded', trials=10,
          bound='random tables of 3 matrices, 2 numbers of bins and 3 parameters')
def bars_drawn(c):
    """every bar is the error of its forecast on its parameter for the number of bins shown, figures of merit relative to the largest one;
    the table itself is left as it was"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pandas as pd
    names, pars, bins = ['WL', 'GCph', 'GCsp'], ['h', 'FoM', 'w0'], [4, 12]
    keys = [(n, b) for b in bins for n in names]
    v = {(n, b, p): c.real(f'{n}_{b}_{p}', positive=True) for n, b in keys for p in pars}
    df = pd.DataFrame([{'fisher': n, 'n_sp_bins': b, **{p: v[(n, b, p)] for p in pars}} for n, b in keys])
    before = df.copy()
    P = c.target(BP + ':ErrorBarPlotter')(df)
    asked = c.choice('asked', [['WL'], ['GCsp', 'WL'], ['WL', 'GCph', 'GCsp']])

    def check(ax, nb):
        best = max(v[(n, nb, 'FoM')] for n in asked)
        c.ensure('groups', len(ax.containers) == len(asked))
        for n, bars in zip(asked, ax.containers):
            for p, bar in zip(pars, bars):
                want = v[(n, nb, p)] / best if p == 'FoM' else v[(n, nb, p)]
                c.ensure('bar', near(bar.get_width(), want))
        c.ensure('names', [t.get_text() for t in ax.get_yticklabels()] == ['$h$', r'$\mathrm{FoM}/\mathrm{FoM_{max}}$', '$w_0$'])
        c.ensure('bins', any('$%s$' % nb in t.get_text() for t in ax.texts))
    ax = P.doSingleErrorBarPlot(asked, 4)
    check(ax, 4)
    got = [t.get_text() for t in ax.get_legend().get_texts()]
    c.ensure('legend', got == [{'WL': r'$\mathrm{WL}$', 'GCph': r'$\mathrm{GC_{ph}}$', 'GCsp': r'$\mathrm{GC_{sp}}$'}[n] for n in asked])
    fig, axs = P.doPairErrorBarPlot(asked, 12, 4)
    check(axs[0], 12)
    check(axs[1], 4)
    c.ensure('table left', df.equals(before))
    plt.close('all')


@contract('P29', [CP + '.cl_plot', CP + '.grid_plot'], mode='bounded', trials=10, bound='up to 3 by 4 panels of 2 spectra')
def grids_of_spectra(c):
    """every panel of a grid shows the spectra of its own pair of bins"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    n, m, L = c.choice('rows', [2, 3]), c.choice('columns', [2, 4]), 4
    ell = np.arange(1.0, L + 1)
    cls = [c.array(f'cl{k}', (L, n + 1, m + 1), positive=True) for k in range(2)]
    i0, j0 = c.choice('first row', [0, 1]), c.choice('first column', [0, 1])
    fig, axes = c.target(CP + ':cl_plot')([ell, 2 * ell], cls, ['a', 'b'], i_min=i0, j_min=j0, i_max=n, j_max=m, figsize=(3, 3), logx=c.choice('log', [True, False]))
    c.ensure('panels', axes.shape == (n + 1 - i0, m + 1 - j0))
    for i, j in itertools.product(range(i0, n + 1), range(j0, m + 1)):
        ax = axes[i - i0, j - j0]
        lines = ax.get_lines()
        if i < j:
            c.ensure('hidden', not lines and not ax.axison)
            continue
        c.ensure('spectra', len(lines) == 2)
        for k, l in enumerate(lines):
            c.ensure('spectra', np.array_equal(l.get_xdata(), ell * (k + 1)) and np.array_equal(l.get_ydata(), cls[k][:, i, j]) and l.get_label() == 'ab'[k])
    plt.close(fig)
    y = c.array('y', (n, m, L), positive=True)
    fig, axes = c.target(CP + ':grid_plot')(ell, y, label='x', figsize=(3, 3), triangular=False)
    for i, j in itertools.product(range(n), range(m)):
        (l,) = axes[i, j].get_lines()
        c.ensure('grid', np.array_equal(l.get_xdata(), ell) and np.array_equal(l.get_ydata(), y[i, j]))
    if n == m:
        fig, axes = c.target(CP + ':grid_plot')(ell, y, triangular=True, figsize=(3, 3))
        for i, j in itertools.product(range(n), range(m)):
            c.ensure('triangle', len(axes[i, j].get_lines()) == (1 if i >= j else 0))
    else:
        c.raises('not square', Exception, lambda: c.target(CP + ':grid_plot')(ell, y, triangular=True))
    plt.close('all')


@contract('P29', [PL + 'makeSingleCorrelationPlot', PL + 'makeAllCorrelationPlots', PM + '.heatmap', PM + '.set_TeX_xticklabels', PM + '.set_TeX_yticklabels'], mode='bounded', trials=8, bound='up to 3 matrices of up to 3 parameters')
def correlation_maps(c):
    """a correlation map shows every coefficient at the row and column of its parameters; one map is saved for every matrix"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    names = c.choice('forecasts', [['WL'], ['WL', 'GCph']])
    pars = c.choice('parameters', [['h', 'w0'], ['w0', 'ns', 'h']])
    pl, an, ms, settings = native_plotting(c, names, pars)
    for n in names:
        r = c.array('r_' + n, (len(pars), len(pars)), conc=(-1, 1))
        ms[n].correlation = pd.DataFrame(r, index=pars, columns=pars)
    for n in names:
        fig, ax = pl.makeSingleCorrelationPlot(n)
        mesh = ax.collections[0]
        got = np.asarray(mesh.get_array()).reshape(len(pars), len(pars))
        c.ensure('coefficients', np.array_equal(got, ms[n].correlation.values))
        c.ensure('scale', tuple(mesh.get_clim()) == (-1.0, 1.0))
        for ticks in (ax.get_xticklabels(), ax.get_yticklabels()):
            c.ensure('names', [t.get_text() for t in ticks] == [TEX[p] for p in pars])
        c.ensure('title', ax.get_title() == {'WL': r'$\mathrm{WL}$', 'GCph': r'$\mathrm{GC_{ph}}$'}[n])
    plt.close('all')
    with scratch() as d:
        pl.makeAllCorrelationPlots(outdir=d)
        c.ensure('files', {x.name for x in d.iterdir()} == {f'correlation_forecast_{n}.pdf' for n in names})
    plt.close('all')


@contract('P29', [CT + '.get_fisher_analysis_for_fishers', CT + '.get_fisher_analysis_for_case_subcase', CT + '.build_plotter', CT + '.get_config_file'], mode='bounded', trials=30, bound='up to 3 selected analyses')
def analysis_to_plot(c):
    """the analysis plotted is the only one of the case asked for, with its matrices and its run; an ambiguous choice is refused"""
    import pandas as pd
    m = c.choice('selected', [0, 1, 2])
    asked = []

    class An:
        def __init__(self, k):
            self.k, self.metadata, self.did, self.name = k, {'left': 1}, [], None

        def evaluateMarginalizedErrors(self):
            self.did.append('errors')

        def evaluateRelativeMarginalizedErrors(self):
            self.did.append('relative')

    def sub(sel_dict, sel_fishers=None):
        asked.append((dict(sel_dict), list(sel_fishers)))
        return pd.DataFrame([[f'optm_run_{k}', An(k)] for k in range(m)], columns=['run_id', 'analysis'])
    table = c.target(CT + ':PLOTS_FISHERS_MAP')
    case = c.choice('case', sorted(table))
    subcase = c.choice('subcase ' + case, sorted(table[case]))
    sel = {'n_bins': 4}
    f = lambda: c.target(CT + ':get_fisher_analysis_for_case_subcase')(case, subcase, ns(getFisherAnalysesSubDf=sub), sel)
    if m != 1:
        c.raises('ambiguous', Exception, f)
        return
    an = f()
    c.ensure('asked', asked == [(sel, list(table[case][subcase]))])
    c.ensure('analysis', an.k == 0 and an.name == 'optm_run_0')
    c.ensure('data', an.metadata == {'left': 1, 'run_id': 'optm_run_0', 'scenario': 'optm', 'n_bins': 4, 'case': case, 'subcase': subcase})
    c.ensure('errors', 'errors' in an.did and 'relative' in an.did)


@contract('P29', [FR + '.FisherResultsCollector.setupFisherPlotters', FR + '.FisherResultsCollector.plot_config_dict', PL + 'setPlotConfig'], mode='bounded', trials=20, bound='two cosmologies of up to 3 parameters')
def plots_of_results(c):
    """the plots of every cosmology of the results show its own forecasts and parameters, with the settings and the ranges asked for"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    asked = {k: c.choice('plotted ' + k, opts) for k, opts in (('LCDM', ['all', ['h']]), ('w0_wa_CDM', ['all', ['w0', 'h']]))}
    pars = {'LCDM': ['ns', 'h'], 'w0_wa_CDM': ['w0', 'ns', 'h']}
    ans, settings = {}, None
    for k in pars:
        pl, ans[k], ms, settings = native_plotting(c, ['WL', 'GCph'], pars[k])
    settings['graphics']['color_map'] = c.choice('colours', ['viridis', 'rainbow', 'jet'])
    settings['graphics']['cl_alpha_dict'] = c.choice('levels', [{'gauss': {'0.5': 0.3}, 'ellipse': {'0.9': 0.1, '0.3': 0.7}}, settings['graphics']['cl_alpha_dict']])
    settings['axes']['ticks']['digits'] = 3
    with scratch() as d:
        (d / 'r.json').write_text(json.dumps({'cosmologies': {k: {'present': 'true', 'pars': pars[k], 'pars_to_plot': asked[k]} for k in pars}, 'fishers_addends_list': [], 'plot_settings': settings}))
        ranges = {p: [float(q), q + 2.5] for q, p in enumerate(('h', 'ns', 'w0'))} if c.choice('ranges', [True, False]) else None
        if ranges:
            (d / 'ranges.json').write_text(json.dumps(ranges))
        r = c.target(FR + ':FisherResultsCollector')(analysis_name='x', fishers_dir=d, results_config_file=d / 'r.json', plot_ranges_file=(d / 'ranges.json') if ranges else None)
        r.analysis_dict = dict(ans)
        r.setupFisherPlotters()
        for k in pars:
            pl = r.plotters_dict[k]
            own = sorted(pars[k]) if asked[k] == 'all' else asked[k]
            c.ensure('analysis', pl.analysis is ans[k])
            c.ensure('parameters', list(pl.pars_to_plot) == own and pl.config.n_cosmo_pars == len(own))
            for p in own:
                lo, hi = pl.plot_ranges[p]
                want = ranges[p] if ranges else pl.computePlotRangeForParameter(p)
                c.ensure('ranges', near(lo, want[0]) and near(hi, want[1]))
            for kind, levels in (('gauss', pl.config.gauss_cl_alpha_dict), ('ellipse', pl.config.ellipse_cl_alpha_dict)):
                c.ensure('levels', levels == {float(x): y for x, y in settings['graphics']['cl_alpha_dict'][kind].items()})
            cm = plt.get_cmap(settings['graphics']['color_map'])
            c.ensure('colours', [tuple(pl.getColorForFisher(f)) for f in ('WL', 'GCph')] == [tuple(cm(0.0)), tuple(cm(1.0))])
            c.ensure('ticks', pl.params_ticks_fmts == {p: '%.3g' for p in own})
