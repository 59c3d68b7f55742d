"""Data vectors: the name lists the entries in order, and every textual form reads back as the same ordered list of pairs."""
import itertools
from pyver.api import contract
from contracts.p01_keys import spell, PAIRS, ALIAS, SHORT, LONG, KINDS

DV = 'seyfert.fisher.datavector'
V = DV + '.ClDataVector.'
FU = 'seyfert.fisher.fisher_utils'
UPPER = [(a, b) for a in range(4) for b in range(a, 4)]
FNS = [V + f for f in ('__init__', 'getNameFromEntries', 'getInvolvedAutoCorrelationProbes', 'fromName', 'fromString', 'fromBriefString', 'toString',
                       'toBriefString', 'toShortKeysVector', 'toTupleKeysVector', 'toRawTuples', 'getRawEntries', 'transformEntriesTo', '__len__',
                       '__getitem__', '__iter__', 'is_single_autocorrelation')]


def printed(a, b):
    return ALIAS[a] if a == b else f'XC({ALIAS[a]},{ALIAS[b]})'


def check(c, pairs, kind):
    D = c.target(DV + ':ClDataVector')
    raw = [spell(kind, a, b) for a, b in pairs]
    v = D(list(raw))
    want = [(ALIAS[a], ALIAS[b]) for a, b in pairs]
    name = '[' + '+'.join(printed(a, b) for a, b in pairs) + ']'
    tuples = lambda w: [e.toTupleRawKey() for e in w]
    c.ensure('name', v.name == name)
    c.ensure('entries in order', tuples(v) == want and len(v) == len(pairs) and v.toRawTuples() == want and list(v.getRawEntries()) == raw)
    c.ensure('indexing', all(v[i].toTupleRawKey() == want[i] for i in range(len(pairs))))
    c.ensure('auto probes', set(v.getInvolvedAutoCorrelationProbes()) == {ALIAS[a] for a, b in pairs if a == b} and
             set(v.involved_probes) == {ALIAS[a] for a, b in pairs if a == b})
    c.ensure('single auto', bool(v.is_single_autocorrelation) == (len(pairs) == 1 and pairs[0][0] == pairs[0][1]))
    c.ensure('name reads back', tuples(D.fromName(name)) == want)
    c.ensure('text reads back', tuples(D.fromString(v.toString())) == want)
    brief = '_'.join(SHORT[a] + SHORT[b] for a, b in pairs)
    c.ensure('brief form', v.toBriefString() == brief and tuples(D.fromBriefString(brief)) == want)
    c.ensure('short entries', v.toShortKeysVector().getRawEntries() == [SHORT[a] + SHORT[b] for a, b in pairs])
    c.ensure('alias entries', v.toTupleKeysVector().getRawEntries() == want)
    c.ensure('copy', tuples(D(v)) == want and D(v).name == name)
    for k in KINDS:
        w = D(list(raw))
        w.transformEntriesTo(k)
        c.ensure('respelled', w.getRawEntries() == [spell(k, a, b) for a, b in pairs] and w.name == name)
    c.ensure('unchanged', list(v.getRawEntries()) == raw and v.name == name)


@contract('P19', FNS, weight=2)
def one_or_two_entries(c):
    """every vector of one or two of the 16 ordered pairs, in each spelling"""
    kind = c.choice('spelling', KINDS)
    first = c.choice('first', PAIRS)
    check(c, [first], kind)
    for second in PAIRS:
        check(c, [first, second], kind)


@contract('P19', FNS, weight=3, mode='bounded', trials=1,
          bound='all 1023 subsets of the ten unordered pairs, forwards and backwards, and 200 random orders of up to ten of the 16 pairs')
def longer_vectors(c):
    import random
    r = random.Random(5)
    for n in range(1, 11):
        for s in itertools.combinations(UPPER, n):
            check(c, list(s), 'short')
            if n > 1:
                check(c, list(reversed(s)), 'alias')
    for _ in range(200):
        check(c, r.sample(PAIRS, r.randint(1, 10)), r.choice(KINDS))


@contract('P19', [V + '__eq__'], weight=1)
def equality(c):
    """two vectors are equal exactly when they list the same pairs in the same order, whatever the spelling"""
    D = c.target(DV + ':ClDataVector')
    lists = [[(0, 0)], [(0, 2)], [(2, 0)], [(0, 0), (2, 2)], [(2, 2), (0, 0)], [(0, 0), (0, 2), (2, 2)], [(0, 0), (0, 2)], [(0, 0), (0, 0)]]
    x, y = c.choice('x', lists), c.choice('y', lists)
    k = c.choice('spelling', KINDS)
    a, b = D([spell(k, *p) for p in x]), D([spell('alias', *p) for p in y])
    c.ensure('equal iff same list', bool(a == b) == (x == y))


@contract('P19', [FU + '.get_probes_xc_fisher_name', FU + '.get_probes_from_fisher_name'], weight=1)
def multi_tracer_names(c):
    """the name of the joint matrix of some tracers lists them in order and reads back as the same list"""
    names = c.choice('spelling', [ALIAS, SHORT, LONG])
    name, back = c.target(FU + ':get_probes_xc_fisher_name'), c.target(FU + ':get_probes_from_fisher_name')
    for n in (1, 2, 3, 4):
        for s in itertools.permutations(names, n):
            got = name(list(s))
            c.ensure('name', got == ('+'.join(s) + ('+XC' if n > 1 else '')))
            c.ensure('reads back', back(got) == list(s))


@contract('P19', [FU + '.load_selected_data_vectors', FU + '.load_a_posteriori_fisher_comb_names'], mode='bounded', trials=1,
          bound='the files shipped with the package and three written ones')
def lists_in_files(c):
    """the lists of data vectors and combinations are the lines of their files that are neither blank nor comments"""
    import tempfile
    from pathlib import Path
    from unittest import mock
    from seyfert.utils import filesystem_utils as fsu
    load, combs = c.target(FU + ':load_selected_data_vectors'), c.target(FU + ':load_a_posteriori_fisher_comb_names')
    vecs = [[(0, 0)], [(0, 0), (0, 2), (2, 2)], [(1, 1), (0, 2)]]
    with tempfile.TemporaryDirectory() as d, mock.patch.object(fsu, 'fisher_aux_files_dir', lambda: Path(d)):
        for pre in ('', '# comment: phph\n\n', '\n   # x\n  '):
            lines = ['[' + '+'.join(printed(*p) for p in v) + ']: ' + ', '.join(SHORT[a] + SHORT[b] for a, b in v) for v in vecs]
            (Path(d) / 'selected_datavectors.txt').write_text(pre + '\n\n# no\n'.join(lines) + '\n')
            (Path(d) / 'a_posteriori_fisher_combs.txt').write_text(pre + '[WL] + [GCph]\n\n#[V]\n  [WL] - [V]  \n')
            c.ensure('data vectors', [w.toRawTuples() for w in load()] == [[(ALIAS[a], ALIAS[b]) for a, b in v] for v in vecs])
            c.ensure('combinations', combs() == ['[WL] + [GCph]', '[WL] - [V]'])
