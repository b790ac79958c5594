"""The table of checks: which parts decide which property, per tier."""

ASSUMPTIONS = [
    'the Go toolchain and standard library, TLC and the JSON module are correct',
    'the real code is exercised through its public API only; what no generated history or replayed behaviour reaches is not judged',
]

TECHNIQUE = {
    'default': 'TLA+ specification checked with TLC; trace validation of recorded calls and replay of enumerated behaviours',
}
NOTES = {
    'default': 'Every recorded result of the real code is checked by TLC to be a behaviour of the TLA+ specification; small scopes are '
               'enumerated exhaustively, larger ones sampled from the seed. Trusts TLC, the Go toolchain and the recording driver.',
}
NOT_APPLICABLE = {}


def n(c, quick, thorough):
    return quick if c.quick else thorough


def tv(*profs):
    """profs: (profile, quick histories, thorough histories, length)"""
    def run(c):
        c.tv([(p, n(c, q * 2, t), ln, '0') for p, q, t, ln in profs], timeout=n(c, 600, 7200))
    return run


def giant(prof, quick=16, thorough=600):
    """tables and sets of up to 10^5 entries"""
    def run(c):
        c.tv([(prof, n(c, quick, thorough), 60, '0')], module='GiantTrace', timeout=n(c, 600, 7200))
    return run


def seq(*fs):
    def run(c):
        for f in fs:
            f(c)
    return run


def conc(reads):
    def run(c):
        for v in ('q2', 'q3') if c.quick else ('q2', 'q3', 't3'):
            c.mc('Conc', 'Conc_%s.cfg' % v, timeout=n(c, 300, 3600))
        if not c.quick:  # the monitor is not blind: broken algorithms are rejected
            for v in ('twice', 'blind', 'mute'):
                c.mc('Conc', 'Conc_%s.cfg' % v, expect_violation=True)
        for v in ('ins', 'rem'):
            c.mc('Burst', 'Burst_%s.cfg' % v)
        c.tv([('nested', n(c, 400, 8000), 40, '0'), ('free', n(c, 8, 60), n(c, 500, 2000), '0')] +
             ([('cycle', n(c, 120, 2000), 1500, '0')] if reads else [('burst', n(c, 30, 400), 80, '0')]), module='ConcTrace',
             timeout=n(c, 600, 7200))
        c.sched(n(c, 560, 8000), n(c, 800, 4000), timeout=n(c, 600, 7200))
        if reads:
            c.race(n(c, 30, 600))
            c.tv([('reent', n(c, 80, 3000), 60, '0')], timeout=n(c, 600, 7200))
    return run


def share(c):
    c.tv([('share', n(c, 120, 3000), 110, '0'), ('share+', n(c, 16, 400), 40, '0')], cfg='ShareTrace.cfg', timeout=n(c, 600, 7200))


def never(c):
    """a comparison by which nothing equals anything"""
    c.tv([('never', n(c, 300, 5000), 60, '0'), ('never+', n(c, 16, 250), 24, '0')], cfg='ShareTrace.cfg', timeout=n(c, 600, 7200))


def rep(quick, thorough, full=False):
    """behaviours enumerated by TLC, replayed in this many positions"""
    return lambda c: c.rep(n(c, quick, thorough), full=full or not c.quick, timeout=n(c, 600, 7200))


def mc(quick, thorough=()):
    """configurations checked on the specification itself"""
    def run(c):
        for m, f in tuple(quick) + (() if c.quick else tuple(thorough)):
            c.mc(m, f, timeout=n(c, 600, 7200))
    return run


def design(*quick):
    """tries that are copied on their paths refine tables"""
    def run(c):
        for v in quick if c.quick else ('m', 't', 't3'):
            c.mc('TrieMC', 'TrieMC_%s.cfg' % v, timeout=n(c, 600, 7200))
        for v in () if c.quick else ('inplace', 'copies', 'untidy', 'deep'):  # the invariants are not blind
            c.mc('TrieMC', 'TrieMC_%s.cfg' % v, expect_violation=True)
    return run


def sdesign(c):
    """the algorithms on the tries of sets refine the algebra of sets, canonical shape included"""
    for v in ('q', 'q2') if c.quick else ('q', 'q2', 't', 't2'):
        c.mc('SetTrieMC', 'SetTrieMC_%s.cfg' % v, timeout=n(c, 600, 7200))
    for v in () if c.quick else ('unmerged', 'mergeany', 'firstfit'):
        c.mc('SetTrieMC', 'SetTrieMC_%s.cfg' % v, expect_violation=True)


def store(c):
    """Store and the tries that its calls build, side by side"""
    c.mc('StoreMC', 'StoreMC_q.cfg', timeout=n(c, 600, 7200), sim=n(c, 100, 3000))
    if not c.quick:
        for v in 'bs':
            c.mc('StoreMC', 'StoreMC_%s.cfg' % v, timeout=7200)


def lemmas(c):
    """the operators on tables mean what they should"""
    for v in ('1_1_3', '2_1_1') if c.quick else ('1_1_3', '1_1_2', '2_1_1', '1_2_1'):
        c.mc('TablesLemmas', 'TablesLemmas_%s.cfg' % v, timeout=n(c, 600, 7200))


def text(*profs):
    def run(c):
        c.mc('TextLemmas', 'TextLemmas_q.cfg' if c.quick else 'TextLemmas_t.cfg')
        c.tv([(p, n(c, q * 2, t), ln, '0') for p, q, t, ln in profs], module='TextTrace', timeout=n(c, 600, 7200))
    return run


CHECKS = {
    'C01': seq(rep(8, 60), tv(('map', 300, 6000, 60), ('map+', 20, 400, 24)), giant('giant')),
    'C02': seq(lemmas, rep(24, 600), tv(('lpm', 300, 6000, 60), ('lpm+', 20, 400, 24)), giant('giant')),
    'C03': seq(lemmas, rep(24, 600), tv(('walk', 250, 5000, 60), ('walk+', 20, 400, 24)), giant('giant')),
    'C04': seq(rep(16, 200), tv(('diff', 250, 5000, 60), ('diff+', 20, 400, 24)), giant('giant')),
    'C05': seq(lemmas, rep(24, 600), tv(('agg', 250, 3000, 70), ('agg+', 15, 300, 24)), giant('giant')),
    'C06': seq(rep(24, 600, full=True), tv(('aggmin', 200, 4000, 60), ('aggmin+', 15, 300, 24)), giant('giant')),
    'C07': seq(rep(16, 400), tv(('mapfn', 250, 5000, 60), ('mapfn+', 15, 300, 24)), giant('giant')),
    'C08': seq(store, rep(16, 400), tv(('alias', 560, 3000, 60), ('alias+', 20, 250, 24), ('salias', 300, 1500, 60), ('salias+', 20, 250, 24))),
    'C09': tv(('build', 800, 3000, 60), ('sbuild', 480, 1500, 60)),
    'C10': tv(('tgrid', 40, 400, 0), ('sgrid', 40, 400, 0), ('zero', 900, 4000, 50), ('szero', 900, 4000, 50)),
    'C11': conc(False),
    'C12': conc(True),
    'C13': seq(mc((('AddrSetsLemmas', 'AddrSetsLemmas_2_1.cfg'), ('AddrSetsLemmas', 'AddrSetsLemmas_1_2.cfg')),
                  (('AddrSetsLemmas', 'AddrSetsLemmas_1_3.cfg'),)), sdesign, rep(16, 60), tv(('setalg', 240, 2500, 60), ('setalg+', 16, 400, 24)), giant('gset')),
    'C14': seq(sdesign, rep(16, 60), tv(('canon', 300, 2500, 60), ('canon+', 20, 400, 24)), giant('gset')),
    'C15': seq(rep(24, 600), tv(('count', 400, 4000, 60), ('count+', 20, 400, 24)), giant('gset')),
    'C16': seq(rep(24, 600), tv(('swalk', 450, 2500, 60), ('swalk+', 40, 400, 24))),
    'C17': seq(sdesign, rep(24, 200), tv(('find', 375, 3000, 60), ('find+', 40, 400, 24))),
    'C18': seq(rep(24, 400), tv(('range', 450, 3000, 60))),
    'C19': seq(rep(300, 20000), tv(('rarith', 900, 6000, 60))),
    'C20': tv(('prefix', 800, 4000, 60)),
    'C21': text(('text', 260, 3000, 150)),
    'C22': text(('binary', 260, 3000, 150)),
    'C23': text(('agnostic', 320, 3000, 160)),
    'C25': seq(design('m', 'q'), store, share, giant('giant')),
    'C26': tv(('fault', 1100, 3000, 60)),
    'C27': tv(('value', 700, 3000, 60)),
    'C28': seq(design('m'), tv(('cost', 24, 200, 60))),
    'C24': seq(never, tv(('kinds', 300, 5000, 60), ('kinds+', 15, 250, 24))),
}
