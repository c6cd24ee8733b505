"""Which scenario families decide which property, how many of each, and what of the record is compared."""

# observables (lib/scn.py observation) handed to the specification, by family
WANT = {
    'stats': ['kv', 'parts', 'sums', 'fsizes', 'memfree', 'layout'],
    'codec': ['kv', 'parts', 'layout'],
    'walrot': ['kv', 'parts', 'walfiles', 'recs', 'lsn', 'copies'],
    'batch_fault': ['kv', 'parts', 'recs'],
    'serial': ['kv', 'parts', 'ssn'],
    'ddl': ['kv', 'place', 'stor', 'clouds', 'pipe', 'opts'],
    'ddl_crash': ['kv', 'place', 'stor', 'clouds', 'pipe', 'opts'],
    'ddl_fault': ['kv', 'place', 'stor', 'clouds', 'pipe', 'opts'],
    'openclose': ['kv', 'parts', 'stor', 'clouds', 'pipe', 'copies'],
    'moves': ['kv', 'parts', 'stor', 'copies'],
    'cloud': ['kv', 'parts', 'copies'], 'cloud_chain': ['kv', 'parts', 'copies'], 'drops': ['kv', 'parts', 'copies', 'recs'], 'crash_lossy': ['kv', 'parts', 'recs'],
    'crash_moves': ['kv', 'parts', 'stor', 'copies'],
    'crash_chain': ['kv', 'parts', 'copies', 'recs'], 'faults': ['kv', 'parts', 'copies'], 'pipe_cloud': ['kv', 'parts', 'copies'], 'svc': ['kv', 'parts', 'copies'], 'pipe': ['kv', 'parts', 'copies'], 'parts': ['kv', 'parts', 'copies'],
}
DEFAULT_WANT = ['kv', 'parts']
# observables of recovered crash images
REC = {
    'crash_ops': ['kv', 'place', 'stor', 'clouds', 'pipe', 'copies'],
    'crash_drop': ['kv', 'place', 'copies'],
    'ddl_crash': ['kv', 'place', 'stor', 'clouds', 'pipe'],
}

# property: [(family, scenarios of the quick check, of one thorough round)]
PLAN = {
    'C01': [('mix', 140, 200), ('layers', 140, 200), ('bulk', 12, 40)],
    'C02': [('seek', 120, 200), ('parts', 60, 60), ('bulk', 10, 40)],
    'C03': [('cursor', 180, 250), ('cursor_bulk', 40, 120), ('cursor_bg', 30, 100)],
    'C04': [('batch', 120, 200), ('batch_fault', 160, 250), ('batch_mem', 30, 30), ('crash_write', 30, 60)],
    'C05': [('crash_write', 100, 200), ('crash_chain', 120, 200), ('crash_lossy', 80, 120), ('conc_crash', 100, 150)],
    'C06': [('crash_ops', 120, 250), ('crash_chain', 100, 150)],
    'C07': [('walrot', 240, 400), ('crash_chain', 80, 100), ('crash_lossy', 60, 80)],
    'C08': [('parts', 240, 400), ('mix', 60, 60)],
    'C09': [('drops', 240, 400), ('drops_interval', 80, 100), ('crash_drop', 80, 150), ('crash_ops', 30, 60)],
    'C10': [('moves', 240, 400), ('crash_moves', 200, 300), ('faults', 60, 100)],
    'C11': [('pipe', 240, 400), ('pipe_cloud', 100, 150)],
    'C12': [('cloud', 240, 400), ('cloud_chain', 120, 200), ('crash_ops', 40, 60), ('conc_cloud', 120, 200)],
    'C13': [('codec', 180, 250), ('secret', 80, 100)],
    'C14': [('serial', 240, 400), ('conc_serial', 200, 400)],
    'C15': [('ddl', 160, 250), ('ddl_crash', 120, 200), ('ddl_fault', 120, 150)],
    'C16': [('conc_mix', 300, 600), ('conc_refresh', 200, 400), ('conc_cloud', 200, 400), ('conc_crash', 150, 300)],
    'C17': [('conc_locks', 300, 600), ('conc_mem', 150, 300), ('conc_fault', 200, 400), ('conc_mix', 150, 300), ('batch_fault', 80, 120), ('faults', 60, 100), ('cloud', 60, 100), ('cloud_chain', 40, 80)],
    'C18': [('stats', 240, 400)],
    'C19': [('faults', 200, 300), ('cloud', 100, 150), ('stats', 40, 60), ('conc_fault', 100, 200)],
    'C20': [('svc', 240, 400), ('pipe', 80, 100), ('conc_service', 150, 300)],
    'C21': [('damaged', 300, 800), ('damaged_index', 120, 300)],
    'C22': [('openclose', 180, 300), ('mix', 40, 60)],
}

# families of a property of which only statements that do not return count
HANGS = {'C17': {'batch_fault', 'faults', 'cloud', 'cloud_chain'}}

# families with threads of their own
RACY = {'cursor_bg'}

# the specification explored by itself (lib/model.py). quick, thorough: exhaustive runs (worlds, statements, failures);
# walks: random walks (worlds, statements, failures); replay: histories run in the real code, quick and per thorough round
def M(*worlds, walk=12, replay=(80, 300), quick=None):
    w = list(worlds)
    return dict(quick=quick or [(w, 4 if len(w) == 1 else 3, 1)], thorough=[([x], 4, 2) for x in w] + [([x], 5, 1) for x in w[:2]], walks=(w, walk, 2), replay=replay)
MODELS = {
    'C01': M('P', 'N'), 'C03': M('Q', replay=(150, 400)), 'C04': M('P'), 'C05': M('P', 'R'), 'C06': M('P', 'N', 'C1'), 'C07': M('R', 'P'),
    'C08': M('P', 'T2'), 'C09': M('I', 'P'), 'C10': M('P', 'C2'), 'C11': M('T1', 'T2', 'T3', 'T4'), 'C12': M('C0', 'C1', 'C2', 'C3'),
    'C14': M('S'), 'C15': M('D', replay=(400, 1500), quick=[(['D'], 3, 1)]), 'C18': M('P', 'C1'), 'C19': M('P', 'C3'), 'C20': M('P', 'T2', 'C1'), 'C22': M('R', 'C2'),
}

# enumerated schedules (lib/conc.py): worlds; how many schedules, quick and per thorough round; worlds enumerated completely when thorough
def P(*worlds, n=(300, 900), complete=()): return dict(worlds=list(worlds), quick=n[0], thorough=n[1], complete=list(complete))
PRE = {
    'C05': P('crash', n=(120, 300)), 'C07': P('crash', n=(90, 200)), 'C12': P('cloud', n=(900, 900), complete=['cloud']), 'C14': P('serial', n=(600, 600), complete=['serial']),
    'C16': P('plain', 'plain', 'cloud', 'cloud', 'serial', 'worker', n=(3000, 3000), complete=['plain', 'cloud']),
    'C17': P('plain', 'plain', 'cloud', 'worker', 'memory', n=(3000, 3000), complete=['memory', 'worker', 'plain', 'cloud']),
}
