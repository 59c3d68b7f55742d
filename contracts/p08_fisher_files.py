"""Fisher matrices written to files and read back."""
from pathlib import Path
from pyver.api import contract
from contracts.p06_fisher_algebra import FM, F, fisher, labels_are
from contracts.p22_storage import scratch, opened

SETS = [(['h'], []), (['w0', 'Omm', 'h'], []), (['wa', 'h', 'Omm'], ['bgph10', 'aIA', 'bgph2'])]
ORDERS = ['given', 'nuisance first', 'sorted']


def some_fisher(c, tag='A', name='[GCph+WL+XC]'):
    cosmo, nuis = c.choice('parameters', SETS)
    o = c.choice('order', ORDERS)
    labels = {'given': cosmo + nuis, 'nuisance first': nuis + cosmo, 'sorted': sorted(cosmo + nuis)}[o]
    m, v = fisher(c, tag, cosmo, nuis, order=labels)
    m.name = name
    return m, v, labels, cosmo, nuis


def equals(c, what, r, labels, v, cosmo=None, nuis=None, name=None):
    c.ensure(what + ' order', list(r.matrix.index) == list(labels) and list(r.matrix.columns) == list(labels))
    for a in labels:
        for b in labels:
            c.ensure(what + ' entries', c.eq(r.matrix.loc[a, b], v[(a, b)]))
    if cosmo is not None:
        labels_are(c, r, cosmo, nuis, what + ' ')
    if name is not None:
        c.ensure(what + ' name', r.name == name)


@contract('P08', [F + f for f in ('writeToFile', 'loadFromFile', 'fromHDF5', 'getFilename', 'name', 'cosmological_parameters', 'nuisance_parameters')] + [FM + '.fromHDF5'], weight=3, trials=20)
def stored_matrix(c):
    """a stored Fisher matrix reads back with name, order of the parameters, entries and kinds of the parameters; saving leaves it as it was"""
    name = c.choice('name', ['WL', '[GCph+WL+XC] + [GCsp]', 'a (b), c'])
    m, v, labels, cosmo, nuis = some_fisher(c, name=name)
    given = c.choice('file given', [True, False])
    with scratch() as d:
        f = d / 'any.hdf5'
        m.writeToFile(outfile=f) if given else m.writeToFile(outdir=str(d))
        made = list(d.iterdir())
        c.ensure('one file', len(made) == 1 and (made[0] == f if given else made[0] == d / m.getFilename()))
        c.ensure('file name', m.getFilename() == {'WL': 'fisher_WL.hdf5', '[GCph+WL+XC] + [GCsp]': 'fisher_GCph+WL+XC_+_GCsp.hdf5', 'a (b), c': 'fisher_a_b_-_c.hdf5'}[name])
        f = made[0]
        K = c.target(FM + ':FisherMatrix')
        equals(c, 'read', K.fromHDF5(f), labels, v, cosmo, nuis, name)
        equals(c, 'function', c.target(FM + ':fromHDF5')(str(f)), labels, v, cosmo, nuis, name)
        o = fisher(c, 'B', ['h', 'ns'], ['bgsp1'])[0]
        o.inverse = o.correlation = o.matrix.copy()
        o.loadFromFile(f)
        for x in (o.inverse, o.correlation):
            c.ensure('nothing derived from the old one', x is None or set(x.index) == set(labels))
        equals(c, 'into an existing one', o, labels, v, cosmo, nuis, name)
        equals(c, 'as it was', m, labels, v, cosmo, nuis, name)


@contract('P08', [F + 'writeToFile', F + 'fromHDF5'], weight=2, trials=20)
def existing_files(c):
    """an existing file is refused, kept or replaced as asked, and never mixed with the new content"""
    a, va, la, ca, na = some_fisher(c)
    cb, nb = c.choice('other parameters', [(['h', 'ns'], ['bgsp1']), (['ns'], [])])
    b, vb = fisher(c, 'B', cb, nb)
    b.name = a.name
    if c.choice('smaller first', [False, True]):
        (a, va, la, ca, na), (b, vb, cb, nb) = (b, vb, cb + nb, cb, nb), (a, va, ca, na)
    lb = list(b.matrix.index)
    how = c.choice('asked', ['nothing', 'skip', 'overwrite', 'both'])
    K = c.target(FM + ':FisherMatrix')
    with scratch() as d:
        c.raises('no place', Exception, lambda: a.writeToFile())
        f = d / a.getFilename()
        a.writeToFile(outdir=d)
        if how == 'nothing':
            c.raises('refused', FileExistsError, lambda: b.writeToFile(outfile=f))
        else:
            b.writeToFile(outfile=f, overwrite=how != 'skip', skip_if_exists=how != 'overwrite')
        if how == 'overwrite':
            equals(c, 'new', K.fromHDF5(f), lb, vb, cb, nb, a.name)
        else:
            equals(c, 'kept', K.fromHDF5(f), la, va, ca, na, a.name)
        c.ensure('one file', len(list(d.iterdir())) == 1)
        c.raises('absent', Exception, lambda: K.fromHDF5(d / 'none.hdf5'))
        c.raises('kind of file', Exception, lambda: K().loadFromFile(f, file_ext='txt'))


@contract('P08', [F + 'loadFromFile', F + 'fromCSV', F + 'from_dataframe'], mode='bounded', trials=20, bound='1 to 6 parameters, random entries')
def csv_files(c):
    """a matrix written as csv reads back with the order of its parameters and its entries"""
    m, v, labels, cosmo, nuis = some_fisher(c)
    K = c.target(FM + ':FisherMatrix')
    with scratch() as d:
        f = d / 'name.csv'
        m.matrix.to_csv(f)
        o = K(cosmological_parameters=cosmo, nuisance_parameters=nuis, name='x')
        o.loadFromFile(f, file_ext='csv')
        equals(c, 'read', o, labels, v, cosmo, nuis, 'x')
        equals(c, 'classmethod', K.fromCSV(f, cosmological_parameters=cosmo, nuisance_parameters=nuis), labels, v, cosmo, nuis, 'name')
