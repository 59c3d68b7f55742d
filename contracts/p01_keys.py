"""Names of tracers and of tracer pairs: three spellings, one meaning.  The valid names are a finite set, so every path below is
one of all the cases; the arrays looked up are symbolic."""
import itertools
from pyver.api import contract

SK = 'seyfert.utils.shortcuts'
KEY = SK + '.ClKey'
LONG = ['PhotometricGalaxy', 'SpectroscopicGalaxy', 'Lensing', 'Void']
SHORT = ['ph', 'sp', 'wl', 'vd']
ALIAS = ['GCph', 'GCsp', 'WL', 'V']
NAMES = {'long': LONG, 'short': SHORT, 'alias': ALIAS}
KINDS = list(NAMES)
PAIRS = [(a, b) for a in range(4) for b in range(4)]


def spell(kind, a, b):
    p, q = NAMES[kind][a], NAMES[kind][b]
    return {'long': p + '_' + q, 'short': p + q, 'alias': (p, q)}[kind]


KEY_FNS = [KEY + '.' + f for f in ('__init__', 'inferKind', 'toParts', 'fromParts', 'transformTo', 'getReverseKey', 'equivalentTo', '__eq__',
                                   '__hash__', 'toLongKey', 'toShortKey', 'toAliasKey', 'toLongRawKey', 'toShortRawKey', 'toTupleRawKey',
                                   'is_auto_correlation', 'copy', 'isValidKind', 'is_long', 'is_short')]


@contract('P01', KEY_FNS, weight=1)
def spellings_of_a_pair(c):
    """every valid name: recognised spelling, parts, translations, reversal and auto-correlation flag"""
    a, b = c.choice('pair', PAIRS)
    kind = c.choice('spelling', KINDS)
    ClKey = c.target(SK + ':ClKey')
    raw = spell(kind, a, b)
    k = ClKey(raw)
    c.ensure('kind', k.kind == kind)
    c.ensure('parts', tuple(k.toParts()) == (NAMES[kind][a], NAMES[kind][b]))
    c.ensure('auto', bool(k.is_auto_correlation) == (a == b))
    for other in KINDS:
        t = k.transformTo(other)
        c.ensure('translated', t.key == spell(other, a, b) and t.kind == other)
        c.ensure('translation is an involution', t.transformTo(kind).key == raw)
        f = ClKey.fromParts(NAMES[other][a], NAMES[other][b], kind=other)
        c.ensure('from parts', f.key == spell(other, a, b) and f.kind == other)
    c.ensure('long', k.toLongRawKey() == spell('long', a, b) and k.toLongKey().key == spell('long', a, b))
    c.ensure('short', k.toShortRawKey() == spell('short', a, b) and k.toShortKey().key == spell('short', a, b))
    c.ensure('alias', k.toTupleRawKey() == spell('alias', a, b) and k.toAliasKey().key == spell('alias', a, b))
    r = k.getReverseKey()
    c.ensure('reversed', r.key == spell(kind, b, a) and r.kind == kind)
    c.ensure('the name itself is unchanged', k.key == raw and k.kind == kind)
    c.ensure('copy', ClKey(k).key == raw and k.copy().key == raw)


@contract('P01', KEY_FNS, weight=2)
def equality_across_spellings(c):
    """two names are equal, and fall on the same dictionary entry, exactly when they mean the same ordered pair"""
    a, b = c.choice('pair', PAIRS)
    kind = c.choice('spelling', KINDS)
    ClKey = c.target(SK + ':ClKey')
    k = ClKey(spell(kind, a, b))
    for (x, y) in PAIRS:
        for other in KINDS:
            o = ClKey(spell(other, x, y))
            same = (a, b) == (x, y)
            c.ensure('equal iff same pair', bool(k == o) == same and bool(k.equivalentTo(o)) == same)
            c.ensure('same entry iff same pair', len({k: 1, o: 2}) == (1 if same else 2))


@contract('P01', [KEY + '.toFisherStringRepr', KEY + '.fromFisherStringRepr'], weight=1)
def printed_names(c):
    """the printed name is the tracer for an auto spectrum and XC(first,second) otherwise, and reads back as the same pair"""
    a, b = c.choice('pair', PAIRS)
    kind = c.choice('spelling', KINDS)
    ClKey = c.target(SK + ':ClKey')
    k = ClKey(spell(kind, a, b))
    s = k.toFisherStringRepr()
    c.ensure('printed', s == (ALIAS[a] if a == b else f'XC({ALIAS[a]},{ALIAS[b]})'))
    c.ensure('read back', ClKey.fromFisherStringRepr(s).key == (ALIAS[a], ALIAS[b]))


def malformed():
    valid = {spell(k, a, b) for k in KINDS for a, b in PAIRS}
    out = []
    for kind in ('long', 'short'):
        for a, b in PAIRS:
            s = spell(kind, a, b)
            out += [s + x for x in ('X', '_', ' ', '0', 's', s, '_' + s, '\n')] + [x + s for x in ('X', '_', ' ', '0')]
            out += [s[:-1], s[1:], s.upper(), s.swapcase(), s.replace('_', '__'), s.replace('_', '-')]
    for k1, k2 in itertools.permutations(KINDS, 2):
        for a, b in PAIRS:
            out += [NAMES[k1][a] + NAMES[k2][b], NAMES[k1][a] + '_' + NAMES[k2][b]]
    for a, b in PAIRS:
        p, q = ALIAS[a], ALIAS[b]
        out += [(p,), (p, q, p), (p + 'foo', q), (p, q + 'foo'), (p.lower(), q), (p, ''), ('', q), (SHORT[a], SHORT[b]), (LONG[a], LONG[b]),
                (p, q + '\n'), (p + ' ', q), (' ' + p, q), ()]
    out += ['', '_', 'Lensing', 'wl', 'WL', 'GCphWL', 'WL_WL', None, 3, 2.5, ['WL', 'WL']]
    return [s for s in out if not (isinstance(s, (str, tuple)) and s in valid)]


@contract('P01', [KEY + '.__init__', KEY + '.inferKind'], weight=1, mode='bounded', trials=1, bound='an enumerated list of ~1500 malformed names')
def malformed_pairs_are_refused(c):
    """anything else is refused, never taken for a pair it resembles"""
    ClKey = c.target(SK + ':ClKey')
    for s in malformed():
        c.raises(f'refused {s!r}', Exception, lambda: ClKey(s))


@contract('P01', [KEY + '.fromFisherStringRepr'], weight=1, mode='bounded', trials=1, bound='an enumerated list of malformed printed names')
def malformed_printed_names_are_refused(c):
    ClKey = c.target(SK + ':ClKey')
    names = []
    for a, b in PAIRS:
        p, q = ALIAS[a], ALIAS[b]
        s = f'XC({p},{q})'
        names += [s + 'x', 'x' + s, s[:-1], s + ')', f'XC({p})', f'XC({p};{q})', p + 'x', p + ' ', f'{p},{q}', f'XC({p},{q}z)', p.lower() + 'z']
    for s in names:
        c.raises(f'refused {s!r}', Exception, lambda: ClKey.fromFisherStringRepr(s))


@contract('P01', [SK + '.SmartKeyDict.__init__', SK + '.SmartKeyDict.__getitem__', SK + '.ClSmartKeyDict.reversed_key_transform',
                  SK + '.SmartKeyDict.reversed_key_transform'], weight=2)
def lookup_in_any_spelling(c):
    """a spectrum stored under any spelling of a pair is found under every spelling of it, and transposed in its bins under the
    reversed pair; a plain dictionary returns the same array; an absent pair is refused"""
    a, b = c.choice('pair', PAIRS)
    kind = c.choice('stored', KINDS)
    L, n, m = c.int('L', 1, conc=(1, 4)), c.int('n', 1, conc=(1, 4)), c.int('m', 1, conc=(1, 4))
    A = c.array('A', (L, n, m))
    x, y = (a + 1) % 4, (b + 2) % 4
    B = c.array('B', (L, m, m))
    d = {spell(kind, a, b): A}
    d[spell(kind, x, y)] = B
    cls, plain = c.target(SK + ':ClSmartKeyDict')(d), c.target(SK + ':SmartKeyDict')(d)
    ClKey = c.target(SK + ':ClKey')
    for other in KINDS:
        for key in (spell(other, a, b), ClKey(spell(other, a, b))):
            G = cls[key]
            c.ensure('shape', c.shape_eq(G, (L, n, m)))
            c.forall('stored', [L, n, m], lambda l, i, j: c.eq(c.get(G, l, i, j), c.get(A, l, i, j)))
            c.ensure('plain', plain[key] is A)
        if a != b and (x, y) != (b, a):
            for key in (spell(other, b, a), ClKey(spell(other, b, a))):
                R = cls[key]
                c.ensure('reversed shape', c.shape_eq(R, (L, m, n)))
                c.forall('reversed', [L, m, n], lambda l, i, j: c.eq(c.get(R, l, i, j), c.get(A, l, j, i)))
                c.ensure('plain reversed', plain[key] is A)
        u, v = (a + 3) % 4, (a + 3) % 4
        if (u, v) not in ((a, b), (x, y)):
            c.raises('absent pair refused', KeyError, lambda: cls[spell(other, u, v)])
    c.ensure('lookups store nothing', len(cls) == len(d) and len(plain) == len(d))
    Z = c.array('Z', (L, n, m))
    cls[ClKey(spell(kind, a, b))] = Z
    for other in KINDS:
        c.forall('replaced', [L, n, m], lambda l, i, j: c.eq(c.get(cls[spell(other, a, b)], l, i, j), c.get(Z, l, i, j)))
        if a != b and (x, y) != (b, a):
            c.forall('replaced, reversed', [L, m, n], lambda l, i, j: c.eq(c.get(cls[spell(other, b, a)], l, i, j), c.get(Z, l, j, i)))
    c.forall('other entry kept', [L, m, m], lambda l, i, j: c.eq(c.get(cls[spell(kind, x, y)], l, i, j), c.get(B, l, i, j)))


PN = SK + '.ProbeName'


@contract('P01', [PN + '.' + f for f in ('__init__', 'inferKind', 'transformTo', 'toShort', 'toLong', 'toAlias', 'equivalentTo', '__eq__')], weight=1)
def spellings_of_a_tracer(c):
    """every spelling of a single tracer: kind, translations, equality; unknown names are refused"""
    a = c.choice('tracer', range(4))
    kind = c.choice('spelling', KINDS)
    PName = c.target(SK + ':ProbeName')
    p = PName(NAMES[kind][a])
    c.ensure('kind', p.kind == kind and bool(p.is_long) == (kind == 'long') and bool(p.is_short) == (kind == 'short') and bool(p.is_alias) == (kind == 'alias'))
    c.ensure('translated', p.toLong().name == LONG[a] and p.toShort().name == SHORT[a] and p.toAlias().name == ALIAS[a])
    for other in KINDS:
        c.ensure('translated', p.transformTo(other).name == NAMES[other][a] and p.transformTo(other).kind == other)
        for x in range(4):
            c.ensure('equal iff same', bool(p == PName(NAMES[other][x])) == (x == a))
    for s in (NAMES[kind][a] + 'x', NAMES[kind][a].capitalize() + '_', 'x' + NAMES[kind][a], ''):
        c.raises('unknown refused', Exception, lambda: PName(s))


BD, GD, GU = 'seyfert.base_structs.cl_dict', 'seyfert.base_structs.generic_dict', 'seyfert.utils.general_utils'
FD = BD + '.FlexDict'


@contract('P01', [FD + '.__getitem__', FD + '.tuple_keys', FD + '.tuple_key_to_str_key', FD + '.str_key_to_tuple_key', FD + '.alias_to_fullname', FD + '.fullname_to_alias', FD + '.transform',
                  FD + '.__init__', BD + '.ClDict.__init__', BD + '.ClDict.transform', BD + '.TupleSmartDict.__getitem__', BD + '.TupleSmartDict.transform', BD + '.ClSmartDict.transform',
                  GU + '.get_probes_combination_key', GU + '.get_probes_from_comb_key', GU + '.reverse_probes_comb_key'], weight=1)
def lookup_in_plain_containers(c):
    """the containers of spectra by full name or pair of aliases find a spectrum in both orders of the pair, transposed in its bins when the
    order is the opposite of the stored one"""
    a, b = c.choice('pair', PAIRS)
    L, n, m = c.int('L', 1, conc=(1, 4)), c.int('n', 1, conc=(1, 4)), c.int('m', 1, conc=(1, 4))
    A = c.array('A', (L, n, m))
    B = c.array('B', (L, m, m))
    x, y = (a + 1) % 4, (b + 2) % 4
    cl, plain = c.target(BD + ':ClDict'), c.target(BD + ':FlexDict')
    tup, tplain = c.target(BD + ':ClSmartDict'), c.target(BD + ':TupleSmartDict')
    long, alias = {spell('long', a, b): A, spell('long', x, y): B}, {spell('alias', a, b): A, spell('alias', x, y): B}
    both = [(cl(dict(long)), ['long', 'alias'], True), (plain(dict(long)), ['long', 'alias'], False), (tup(dict(alias)), ['alias'], True), (tplain(dict(alias)), ['alias'], False)]
    for d, kinds, turn in both:
        for kind in kinds:
            G = d[spell(kind, a, b)]
            c.ensure('stored', G is A)
            if a != b and (x, y) != (b, a):
                R = d[spell(kind, b, a)]
                if turn:
                    c.ensure('reversed shape', c.shape_eq(R, (L, m, n)))
                    c.forall('reversed', [L, m, n], lambda l, i, j: c.eq(c.get(R, l, i, j), c.get(A, l, j, i)))
                else:
                    c.ensure('plain reversed', R is A)
            z = (a + 3) % 4
            if (z, z) not in ((a, b), (x, y)):
                c.raises('absent pair refused', KeyError, lambda: d[spell(kind, z, z)])
        c.ensure('lookups store nothing', len(d) == 2)
    d = both[0][0]
    c.ensure('pairs', list(d.tuple_keys) == [spell('alias', a, b), spell('alias', x, y)] and list(d.keys()) == [spell('long', a, b), spell('long', x, y)])
    c.ensure('names', d.str_key_to_tuple_key(spell('long', b, a)) == spell('alias', b, a))
    c.ensure('stored name', d.tuple_key_to_str_key(spell('alias', a, b)) == spell('long', a, b))
    if (x, y) != (b, a):
        c.ensure('stored name of the reversed pair', d.tuple_key_to_str_key(spell('alias', b, a)) == spell('long', a, b))
    c.ensure('reversal', c.target(GU + ':reverse_probes_comb_key')(spell('long', a, b)) == spell('long', b, a))


GI = GD + '.GenericDictInterface'


@contract('P01', [GI + '.' + f for f in ('__init__', '__setitem__', '__getitem__', '__delitem__', '__len__', '__iter__', '__eq__', 'keys', 'update', 'base_dict', '__repr__')]
          + [GD + '.DictLike.' + f for f in ('__init__', '__getattr__', '__setattr__', '__delattr__')], mode='bounded', trials=200, bound='histories of 30 operations on five names')
def containers(c):
    """a container behaves as the dictionary of what was put in it, whatever the operations on it; attributes of options are their entries"""
    G = type('Container', (c.target(GI.replace('.Gen', ':Gen')),), {})
    D = c.target(GD + ':DictLike')
    import random
    r = random.Random(c.int('history', 0, 10 ** 6, conc=(0, 10 ** 6)))
    names = 'abcde'
    start = {k: r.random() for k in names if r.random() < .4}
    m, g, at, ref = dict(start), G(dict(start)), D(), {}
    for step in range(30):
        k, v, what = r.choice(names), r.random(), r.randrange(5)
        if what < 2:
            m[k] = v
            g[k] = v
            ref[k] = v
            setattr(at, k, v)
        elif what == 2 and k in m:
            del m[k]
            del g[k]
        elif what == 3:
            u = {x: r.random() for x in names if r.random() < .3}
            m.update(u)
            g.update(u)
            ref.update(u)
            at.update(u)
        elif what == 4 and k in ref:
            del ref[k]
            delattr(at, k)
        c.ensure('same', dict(g.items()) == m and list(g) == list(m) == list(g.keys()) and len(g) == len(m) and dict(g.base_dict) == m)
        c.ensure('membership', all((x in g) == (x in m) for x in names) and all(g[x] == m[x] for x in m))
        c.ensure('attributes', dict(at) == ref and all(getattr(at, x, None) == ref.get(x) for x in names))
        if k not in ref:
            c.raises('absent attribute', AttributeError, lambda: delattr(at, k))
    c.ensure('equality', g == G(dict(m)) and not (g == G({**m, 'z': 1})))
    c.ensure('written', repr(g) == repr(m))
