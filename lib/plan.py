"""What every check runs: families of executions (recorded from the real code, judged by the TLA+ specifications)
and models (checked exhaustively by TLC)."""

KINDS = ('mem', 'bolt', 'redis')


def fams(names, n, kinds=KINDS):
    return {'%s-%s' % (f, k): n for f in names.split() for k in kinds}


def merge(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


LOCAL = ('mem', 'bolt')
RD = ('redis',)

# property -> families with the number of executions (quick)
QUICK = {
    'C01': merge(fams('rand', 600), fams('life ids', 250), fams('cap', 250, LOCAL), fams('conc-any', 30), fams('many', 15), fams('tour-auth', 180)),
    'C02': merge(fams('life', 900), fams('forever', 150), fams('rand', 200), {'reopen-bolt': 250, 'clients-redis': 300}, fams('conc-sweep', 30), fams('tour-auth', 120)),
    'C03': merge(fams('rand refuse', 450), fams('ids', 200), fams('conc-refresh', 60), fams('pairs-refresh', 60), fams('many', 12), fams('wide', 40), fams('long', 6), fams('tour-auth tour-data', 120)),
    'C04': merge(fams('refuse', 800), fams('refcap', 600, LOCAL), fams('rand', 200), {'wfail-bolt': 900}, fams('tour-data', 150), fams('cache', 400)),
    'C05': merge(fams('rand', 800), fams('scribble', 200), fams('conc-data', 40), fams('pairs-data', 50), fams('wide', 60), fams('many', 10), fams('tour-data', 490)),
    'C06': merge(fams('ids', 900), fams('rand', 200), fams('conc-destroy', 50), fams('conc-herd', 25, LOCAL), fams('pairs-destroy', 60), fams('tok', 120), fams('many', 40), fams('crowd', 30), fams('tour-auth', 120)),
    'C07': merge(fams('cap', 1300, LOCAL), fams('rand', 300, LOCAL), fams('conc-cap', 80, LOCAL), fams('many', 60, LOCAL), fams('long', 25, LOCAL), {'tour-cap-mem': 219, 'tour-cap-bolt': 308, 'reopen-bolt': 400, 'shrunkcap-bolt': 1}),
    'C08': merge(fams('life', 450), fams('rand', 200), fams('foot', 700), fams('conc-sweep conc-stumble', 40), fams('conc-pile', 80, LOCAL), fams('many', 50), fams('crowd', 12), fams('horde', 15), fams('long', 5), fams('tour-auth', 100), {'tour-cap-redis': 200, 'shrunksweep-bolt': 1}),
    'C09': merge({'fault-redis': 800}, fams('close', 900), fams('conc-close conc-dead', 40), fams('pairs-close', 70), fams('tour-close', 50)),
    'C10': merge(fams('conc-any conc-refresh conc-destroy conc-data conc-cap conc-stumble conc-sweep conc-close conc-dead', 24, LOCAL), fams('conc-herd', 40, LOCAL),
                 {'pairs-mem': 1000, 'pairs-bolt': 500}),
    'C11': merge(fams('conc-any conc-refresh conc-destroy conc-data conc-stumble conc-close conc-sweep conc-dead', 50, RD), {'pairs-redis': 200}),
    'C12': merge({'reopen-bolt': 1200, 'crash-bolt': 2500, 'disk-bolt': 300}, {'many-bolt': 50, 'wide-bolt': 40, 'long-bolt': 15}),
    'C13': {'fault-redis': 6000},
    'C14': merge(fams('scribble', 900), fams('wide', 40)),
    'C15': merge(fams('tok', 500), {'edits-mem': 100, 'bulk-mem': 8, 'procs-mem': 4}),
    'C16': merge(fams('tok', 500), {'bulk-mem': 30, 'procs-mem': 8, 'edits-mem': 8}),
    'C17': {'cache-mem': 4500, 'cache-bolt': 1000, 'cache-redis': 1000},
    'C18': merge(fams('close rand', 250), fams('life', 150), fams('conc-pile', 60), fams('conc-close conc-stumble', 40), fams('conc-dead', 120), fams('pairs-close', 70), fams('many', 20)),
    'C19': merge(fams('opts', 1200), {'reopen-bolt': 250, 'clients-redis': 600}),
    'C21': {'conf-mgr': 5000, 'conf-bolt': 1500, 'conf-redis': 3000},
    'C20': merge(fams('refuse', 400), fams('ns', 1500, ('bolt', 'redis'))),
}
BUDGET = {'quick': 60, 'thorough': 400}
THOROUGH_FACTOR = 12
# thorough: every tour
TOURS = {'tour-auth': 2640, 'tour-data': 490, 'tour-cap': 2880, 'tour-close': 50}


def M(module, cfg, thorough=False, **kw):
    return dict(module=module, cfg=module + '_' + cfg + '.cfg', thorough=thorough, expect=not cfg.startswith('x_'), **kw)


def T(module, cfg, **kw):
    return M(module, cfg, True, **dict(dict(workers=4, mem='8g', timeout=5000), **kw))


# models: M is checked by every run, T by the thorough one; x_ is a mistake the properties have to notice
MODELS = {
    'C01': [M('StoreHist', 'life'), T('StoreHist', 'life_deep'), T('StoreMC', 'auth')],
    'C02': [M('StoreHist', 'life'), T('StoreHist', 'life_deep'), T('LocalImpl', 'bolt'), T('LocalImpl', 'x_norecheck')],
    'C03': [M('StoreHist', 'life'), M('RedisImpl', 'rotate'), T('RedisImpl', 'rotate3'), T('RedisImpl', 'rotate_deep')],
    'C04': [M('StoreHist', 'data'), T('StoreMC', 'data'), T('StoreMC', 'auth')],
    'C05': [M('StoreHist', 'data'), T('StoreHist', 'data_deep'), T('StoreMC', 'data'), T('RedisImpl', 'data_deep')],
    'C06': [M('StoreHist', 'life'), T('RedisImpl', 'destroy'), T('RedisImpl', 'destroy3'), T('StoreMC', 'auth'), M('Namespaces', 'two'),
            T('Namespaces', 'three'), T('Namespaces', 'x_plain'), T('Namespaces', 'x_nodot'), T('Namespaces', 'x_noclass')],
    'C07': [M('StoreHist', 'cap'), M('StoreHist', 'cap1'), T('StoreHist', 'cap_deep'), T('StoreMC', 'cap'), T('LocalImpl', 'bolt'),
            T('LocalImpl', 'x_noreplace')],
    'C08': [M('StoreHist', 'cap1'), T('LocalImpl', 'bolt'), T('LocalImpl', 'mem'), T('RedisImpl', 'x_worker')],
    'C09': [M('StoreMC', 'close'), T('LocalImpl', 'live0'), T('LocalImpl', 'x_deaf')],
    'C10': [M('LocalImpl', 'three'), T('LocalImpl', 'bolt'), T('LocalImpl', 'mem'), T('LocalImpl', 'deep'), T('LocalImpl', 'x_norecheck'),
            T('LocalImpl', 'x_noreplace')],
    'C11': [M('RedisImpl', 'rotate'), M('RedisImpl', 'data'), T('RedisImpl', 'destroy'), T('RedisImpl', 'rotate3'), T('RedisImpl', 'data3'),
            T('RedisImpl', 'destroy3'), T('RedisImpl', 'destroy_deep'), T('RedisImpl', 'x_nowatch'), T('RedisImpl', 'x_worker'), T('RedisImpl', 'x_nolook')],
    'C12': [M('BoltCrash', 'two'), T('BoltCrash', 'three')] + [T('BoltCrash', 'x_' + x) for x in 'nosync split reuse onemeta nofinal trusttorn'.split()],
    'C13': [M('RedisImpl', 'lost_rotate'), M('RedisImpl', 'lost_data'), M('RedisImpl', 'lost_destroy'), T('RedisImpl', 'lost2'), T('RedisImpl', 'x_retryexec')],
    'C14': [M('Sharing', 'four'), T('Sharing', 'five')] + [T('Sharing', 'x_' + x) for x in 'keepin handout arena unmap'.split()],
    'C15': [M('TokensImpl', 'two', workers=3), T('TokensImpl', 'same'), T('TokensImpl', 'deep'), T('TokensImpl', 'x_refresh'), T('TokensImpl', 'x_noid')],
    'C16': [M('TokensImpl', 'two', workers=3), T('TokensImpl', 'same'), T('TokensImpl', 'deep'), T('TokensImpl', 'x_plain')],
    'C17': [M('SessionHist', 'three'), T('SessionHist', 'deep')] + [T('SessionHist', 'x_' + x) for x in 'failed stale missing'.split()],
    'C19': [M('OptionsHist', 'four'), T('OptionsHist', 'five')],
    'C20': [M('Namespaces', 'two'), T('Namespaces', 'three')] + [T('Namespaces', 'x_' + x) for x in 'plain nodot noclass'.split()],
    'C21': [M('OptionsHist', 'four'), T('OptionsHist', 'five'), M('Sharing', 'four')],
    'C18': [M('LocalImpl', 'live0'), T('LocalImpl', 'live1'), T('LocalImpl', 'live3'), T('LocalImpl', 'x_deaf'), T('LocalImpl', 'x_underlock')],
}
STEPS = {'C10': ['race'], 'C11': ['race'], 'C14': ['race'], 'C15': ['race'], 'C16': ['race']}
RACE = {'C10': ['mem', 'bolt'], 'C11': ['redis'], 'C14': ['mem', 'bolt', 'redis'], 'C15': ['mem'], 'C16': ['mem']}
SETUP = ['tours']
ASSUMPTIONS = ['time is the fake clock of testing/synctest; redis is an in-process server with the semantics of redis >= 6.0.9']
ASSUME = {}

_T = 'TLA+ store specification; recorded executions of the real providers judged by TLC'
_C = 'TLA+ store specification; schedules of the real providers explored and judged for linearizability by TLC'
_N = ('Every execution made is judged completely against the specification; executions are chosen by model-generated tours, '
      'seeded random generation and schedule exploration within the bounds given in DESIGN.md.')
CLAIM = {p: (_C if p in ('C10', 'C11') else _T, _N) for p in QUICK}
NOT_YET = {}
