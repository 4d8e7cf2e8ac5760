"""C15-C19, C22: the database of logs."""
import random
import re
import struct

import common
import ulogenc as U
from genlog import Gen, Long
from checks.reader import appended

ASSUME = [
    'TLC 1.8.0 and the harness (generator, observation, fault injection through sqlite3) are correct',
    'SQLite itself is atomic and durable for the faults injected (process death, not power loss)',
    'integers of a log beyond 63 bits cannot be stored (such logs are used as failing saves)',
]


def gen_log(rng, damage=False, **kw):
    opt = dict(i63=True, n_topics=rng.choice([1, 2, 3]), n_data=rng.choice([6, 20, 40]), infos=6, multis=8,
               params=6, defaults=5, backward=rng.choice([0, .3]), invalid_text=rng.choice([0, .1]),
               bool_raw=rng.random() < .3, removes=True, huge=rng.choice([0, 0, .02]), lookalike=.25)
    opt.update(kw)
    g = Gen(rng, **opt)
    while True:
        if rng.random() < .2:
            b = appended(rng, g, damage, cut=False)
        else:
            b = g.make().bytes()
        return b


def has_samples(data):
    """does a message of the undamaged file hold a sample of a subscribed id?"""
    at, ids = 16, set()
    while at + 3 <= len(data):
        n, t = struct.unpack_from('<HB', data, at)
        body = data[at + 3:at + 3 + n]
        if t == ord('A'):
            ids.add(body[1:3])
        elif t == ord('D') and body[:2] in ids:
            return True
        at += 3 + n
    return False


def gen_filled(rng, **kw):
    while True:
        b = gen_log(rng, **kw)
        if has_samples(b):
            return b


# ---- C15 --------------------------------------------------------------------
def case_content(i):
    rng = random.Random('C15/%d/%d' % (common.SEED, i))
    n = rng.choice([1, 2, 3, 3])
    files = []
    while len(files) < n:
        if files and rng.random() < .3:     # nearly the same log
            f = files[-1] + U.logstr(0x36, rng.randrange(1 << 40), b'one more')
        else:
            f = gen_log(rng, damage=True)
        if f not in files:
            files.append(f)
    saves = [{'file': k + 1, 'all': 1, 'names': [], 'via': rng.choice(['path', 'file', 'bytesio']),
              'json': 0, 'drop': 0} for k in range(n)]
    if rng.random() < .5:
        # another log was stored and deleted before
        saves.insert(0, dict(saves[-1], drop=1))
    rng.shuffle(saves[1:])
    loads = []
    for k in rng.sample(range(1, n + 1), n):
        loads.append({'file': k, 'all': 1, 'names': [], 'strict': 0, 'header': 0, 'fresh': rng.randrange(2),
                      'bysum': rng.randrange(2), 'how': rng.choice(['direct', 'lazy first'])})
    return {'kind': 'content', 'files': [list(f) for f in files], 'saves': saves, 'loads': loads}


def judge_content(ctx, cases):
    res = common.run_impl(ctx, 'exec_store.py', cases)
    good = []
    ins = []
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer (crash or hang)', c)
            continue
        good.append({'files': c['files'], 'loads': c['loads'], 'obs': r})
        ins.append(c)
    for c, g, v in zip(ins, good, common.tlc_verdicts(ctx, 'ReaderTrace', good)):
        if v is None:
            ctx.note(left_open=1)
            continue
        ctx.validated += len(c['loads'])
        if v:
            ctx.violation('; '.join(v) + ' ' + ' '.join(o.get('detail', '') for o in g['obs']), c)
        elif len(ctx.samples) < 2:
            ctx.sample({'file_hex': bytes(c['files'][0]).hex()[:300], 'saves': c.get('saves'), 'loads': c['loads']})


def model_contents(ctx):
    """files of the logger model, several to a database"""
    env = {'PROFILE': 'C01', 'MAXDEF': '2', 'MAXDATA': ctx.scale('1', '2'), 'EXPORTMOD': ctx.scale('7', '3')}
    ok, out = common.tlc(ctx, 'MC_Logger', env=env)
    if not ok:
        raise common.MachineryError('MC_Logger: the specification violates its invariants:\n' + out[-5000:])
    files = sorted(bytes(x['file']) for x in common.tlc_lines(out) if 'file' in x)
    ctx.rng.shuffle(files)
    cases = []
    for part in common.split(files[:ctx.scale(240, 2400)], ctx.scale(60, 600)):
        n = len(part)
        cases.append({'kind': 'content', 'files': [list(f) for f in part],
                      'saves': [{'file': k + 1, 'all': 1, 'names': [], 'via': 'bytesio', 'json': 0, 'drop': 0}
                                for k in range(n)],
                      'loads': [{'file': k + 1, 'all': 1, 'names': [], 'strict': 0, 'header': 0, 'fresh': 1,
                                 'bysum': 1, 'how': 'direct'} for k in range(n)]})
    ctx.note(model_files_replayed=sum(len(c['files']) for c in cases))
    return cases


def check_content(ctx):
    n = ctx.scale(110, 2500)
    ctx.note(random_databases=n)
    cases = model_contents(ctx) + [case_content(i) for i in range(n)]
    for i, kind in enumerate(['param', 'text', 'tagged', 'drop', 'data', 'multi', 'info', 'default'] * ctx.scale(1, 3)):
        with Long(1100 if kind in ('param', 'drop') else 700, kind):
            cases.append(case_content(10 ** 6 + i))
    judge_content(ctx, cases)
    return ASSUME


# ---- C17, C18 -----------------------------------------------------------------
def contents(rng):
    """contents 1 and 2 can be stored, 3 cannot"""
    small = dict(n_data=rng.choice([5, 12]), n_topics=rng.choice([1, 2]), nested=rng.random() < .5)
    a = gen_log(rng, **small)
    b = gen_log(rng, **small) if rng.random() < .7 else a + U.logstr(0x36, 5, b'another')
    g = Gen(rng, **dict(small, i63=True))
    log = g.make()
    bad = rng.choice([U.info('uint64_t', 'big', b'\xff' * 8), U.multi(False, 'uint64_t', 'bigs', b'\xff' * 8)])
    log.defs.append(bad)
    if rng.random() < .3:
        log.data.append(U.logstr(0x33, (1 << 64) - 1, b'far future'))
    return [list(a), list(b), list(log.bytes())]


def fault(rng, what, sizes):
    k = rng.random()
    calls, traces = sizes[what]
    if k < .6:
        return {'kind': 'raise', 'n': rng.randrange(1, calls + 1), 'exc': rng.choice(['op', 'int', 'mem'])}
    if k < .8:
        return {'kind': 'interrupt', 'n': rng.choice([1, 2, 3, 5, 8, 13, 21, 34, rng.randrange(1, 80)])}
    return {'kind': rng.choice(['reader', 'writer', 'exclusive'])}


def concrete(rng, hist, sizes):
    """operations for the executor: faults and other details filled in"""
    ops = []
    for op in hist:
        name = op[0]
        if name == 'new':
            ops.append(op + [{'copy': 10 * op[1] + op[2], 'via': rng.choice(['path', 'path', 'file'])}])
        elif name in ('savefault', 'deletefault'):
            what = name[:-5]
            ops.append([what, op[1], {'fault': fault(rng, what, sizes)}])
        elif name in ('savedies', 'deletedies'):
            what = name[:-4]
            ops.append(op + [{'n': rng.randrange(1, sizes[what][1] + 1)}])
        elif name == 'save':
            ops.append(op + [{'json': int(rng.random() < .2)}])
        else:
            ops.append(op)
    return ops


ENDS = {'C17': ('save', 'savefault', 'savedies'), 'C18': ('delete', 'deletefault', 'deletedies')}


def model_histories(ctx):
    env = {'MAXLEN': ctx.scale('6', '8'), 'MAXSAVES': '3'}
    ok, out = common.tlc(ctx, 'MC_Store', env=env)
    if not ok:
        raise common.MachineryError('MC_Store: the specification violates its invariants:\n' + out[-5000:])
    hists = sorted((x['hist'] for x in common.tlc_lines(out) if 'hist' in x), key=repr)
    ctx.note(model='MC_Store, histories of at most %s operations' % env['MAXLEN'],
             model_transitions_exported=len(hists))
    hists = [h for h in hists if h[-1][0] in ENDS[ctx.prop]]
    ctx.rng.shuffle(hists)
    return hists[:ctx.scale(450, 8000)]


def random_history(rng, n):
    hist = []
    for _ in range(n):
        k = rng.random()
        o = rng.randrange(1, 5)
        f = {1: 1, 2: 1, 3: 2, 4: 3}[o]
        if k < .2 or not hist:
            hist.append(['new', o, f])
        elif k < .5:
            hist.append([rng.choice(['save', 'save', 'savefault']), rng.randrange(1, 7)])
        elif k < .7:
            hist.append([rng.choice(['delete', 'delete', 'deletefault']), rng.randrange(1, 7)])
        elif k < .85:
            hist.append(['open', rng.choice([5, 6]), rng.randrange(1, 5), rng.randrange(2)])
        elif k < .92:
            hist.append(['load', rng.randrange(1, 7), rng.randrange(2)])
        elif k < .97:
            hist.append(['savedies', rng.randrange(1, 3)])
        else:
            hist.append(['deletedies', rng.randrange(1, 4)])
    return hist


def every_fault(ctx, files, sizes):
    """one short history for every point at which the operation can be stopped"""
    calls, traces = sizes['save'] if ctx.prop == 'C17' else sizes['delete']
    step = ctx.scale(max(1, (calls + 29) // 30), 1)
    tstep = ctx.scale(max(1, (traces + 29) // 30), 1)
    hists = []
    if ctx.prop == 'C17':
        for n in range(1, calls + 2, step):
            for exc in ctx.scale(['op'], ['op', 'int', 'mem']):
                hists.append([['new', 3, 2], ['save', 3], ['new', 1, 1],
                              ['save', 1, {'json': n % 2, 'fault': {'kind': 'raise', 'n': n, 'exc': exc}}],
                              ['delete', 1], ['save', 1], ['new', 2, 1, {'copy': 77}], ['save', 2], ['open', 5, 2, 0]])
        for n in range(1, traces + 2, tstep):
            hists.append([['new', 3, 2], ['save', 3], ['savedies', 1, {'n': n}], ['new', 1, 1], ['save', 1],
                          ['open', 5, 2, 0]])
        for k in ('reader', 'writer', 'exclusive'):
            hists.append([['new', 3, 2], ['save', 3], ['new', 1, 1], ['save', 1, {'fault': {'kind': k}}],
                          ['delete', 1], ['save', 1], ['open', 5, 2, 0]])
        for n in range(1, 600, ctx.scale(40, 2)):
            hists.append([['new', 1, 1], ['save', 1, {'fault': {'kind': 'interrupt', 'n': n}}], ['save', 1]])
    else:
        base = [['new', 3, 2], ['save', 3], ['new', 1, 1], ['save', 1]]
        for o in (1, 3):
            for n in range(1, calls + 2):
                hists.append(base + [['delete', o, {'fault': {'kind': 'raise', 'n': n, 'exc': 'op'}}],
                                     ['delete', o], ['save', o], ['delete', o]])
            for n in range(1, traces + 2):
                hists.append(base + [['deletedies', 1 if o == 3 else 2, {'n': n}], ['delete', o], ['save', o]])
            for k in ('reader', 'writer', 'exclusive'):
                hists.append(base + [['delete', o, {'fault': {'kind': k}}], ['delete', o], ['save', o]])
            for n in range(1, 300, ctx.scale(25, 1)):
                hists.append(base + [['delete', o, {'fault': {'kind': 'interrupt', 'n': n}}], ['delete', o], ['save', o]])
    return [{'kind': 'history', 'files': files, 'savable': [1, 1, 0], 'ops': h} for h in hists]


def large(rng, size):
    """contents that differ only behind their first `size` bytes"""
    base = gen_log(rng, n_data=5, n_topics=1)
    while len(base) < size:
        base += U.logstr(0x36, 9, rng.randbytes(1).hex() * min(32000, size))
    return [list(base + U.logstr(0x36, 10, b'one')), list(base + U.logstr(0x36, 10, b'two')), list(base)]


def large_histories(ctx):
    rng = random.Random('%s/large/%d' % (ctx.prop, common.SEED))
    return [{'kind': 'history', 'files': large(rng, size), 'savable': [1, 1, 1],
             'ops': [['new', 1, 1], ['save', 1], ['new', 2, 1, {'copy': 5}], ['save', 2], ['new', 3, 2], ['save', 3],
                     ['open', 5, 1, 0], ['open', 6, 2, 0], ['delete', 1], ['new', 4, 3], ['save', 4], ['save', 1]]}
            for size in [600, 5000, 9000, 20000, 70000, 140000] + ctx.scale([1100000], [1100000, 2200000, 9000000])]


def judge_history(ctx, cases):
    res = common.run_impl(ctx, 'exec_store.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer (crash or hang)', c)
            continue
        good.append(r)
        ins.append(c)
    for c, g, v in zip(ins, good, common.tlc_verdicts(ctx, 'StoreTrace', good, chunk=3000)):
        ctx.validated += 1
        ctx.note(operations_validated=len(g['events']))
        if v:
            ctx.violation('; '.join(v) + ' history: %s' % c['ops'], c)
        elif len(ctx.samples) < 3:
            ctx.sample({'ops': c['ops'], 'outcomes': [e['outcome'] for e in g['events']]})


def check_history(ctx):
    pools = [contents(random.Random('%s/contents/%d/%d' % (ctx.prop, common.SEED, i)))
             for i in range(ctx.scale(6, 24))]
    sizes = common.run_impl(ctx, 'exec_store.py', [{'kind': 'count', 'file': p[0]} for p in pools])
    sizes = [s or {'save': [60, 120], 'delete': [3, 5]} for s in sizes]
    ctx.note(statements=[s['save'] for s in sizes][:6])
    cases = []
    for h in model_histories(ctx):
        k = ctx.rng.randrange(len(pools))
        cases.append({'kind': 'history', 'files': pools[k], 'savable': [1, 1, 0],
                      'ops': concrete(ctx.rng, h, sizes[k])})
    ctx.note(model_histories_replayed=len(cases))
    n = ctx.scale(100, 3000)
    for i in range(n):
        rng = random.Random('%s/history/%d/%d' % (ctx.prop, common.SEED, i))
        k = rng.randrange(len(pools))
        cases.append({'kind': 'history', 'files': pools[k], 'savable': [1, 1, 0],
                      'ops': concrete(rng, random_history(rng, rng.choice([8, 16, 24])), sizes[k])})
    ctx.note(random_histories=n)
    m = len(cases)
    for k in range(ctx.scale(2, 12)):
        cases += every_fault(ctx, pools[k], sizes[k])
    ctx.note(fault_histories=len(cases) - m)
    cases += large_histories(ctx)
    judge_history(ctx, cases)
    return ASSUME


# ---- C16 -----------------------------------------------------------------------
def access_logs(rng):
    while True:
        a = gen_log(rng, n_topics=rng.choice([2, 3]), n_data=rng.choice([6, 14]), infos=2, multis=2, lookalike=.8,
                    empties=.1)
        names = sorted({m for m in subscriptions(a)})
        if len(names) >= 2:
            break
    b = a + U.logstr(0x36, 7, b'b') if rng.random() < .5 else gen_log(rng, n_topics=3, n_data=8)
    files = [list(a), list(b)]
    which = 0
    if rng.random() < .5:
        files.reverse()
        which = 1
    name, multi = rng.choice(names)
    unknown = rng.choice([u for u in ([name + 'x', multi], [name, 77], [name[:-1] or 'q', multi],
                                      [name.upper() + '_', 0], ['nope', 0])
                          if not any(subscribes(bytes(f), *u) for f in files)])
    return files, which, names, unknown


def subscribes(data, name, multi):
    """may the file subscribe to this topic and instance?"""
    m = U.add(multi, 0, name)
    return re.search(re.escape(m[:4]) + b'..' + re.escape(m[6:]), data, re.S) is not None


def subscriptions(data):
    """(topic, instance) of the subscriptions of an undamaged generated file"""
    pos, out, used, ids = 16, [], set(), {}
    while pos + 3 <= len(data):
        n, t = data[pos] + 256 * data[pos + 1], data[pos + 2:pos + 3]
        p = data[pos + 3:pos + 3 + n]
        if t == b'A' and len(p) > 3:
            ids[p[1] + 256 * p[2]] = (p[3:].decode('latin1'), p[0])
        if t == b'D' and len(p) > 2:
            used.add(p[0] + 256 * p[1])
        pos += 3 + n
    return [ids[i] for i in used if i in ids]


def access_case(rng, hist, logs):
    files, which, names, unknown = logs
    pick = rng.sample(range(1, len(names) + 1), 2)
    m = {1: pick[0], 2: pick[1], 3: len(names) + 50}
    ops = [[op[0], op[1], m[op[2]]] + op[3:] if op[0] == 'get' else op for op in hist]
    return {'kind': 'access', 'files': files, 'which': which, 'unknown': unknown, 'ops': ops}


def random_access(rng, n):
    hist = [['construct', 1, rng.randrange(2)], ['construct', 2, rng.randrange(2)]]
    for _ in range(n):
        o, lz, k = rng.randrange(1, 3), rng.randrange(2), rng.random()
        if k < .75:
            hist.append(['get', o, rng.randrange(1, 4), lz, rng.randrange(2)])
        elif k < .85:
            hist.append(['load', o, lz])
        elif k < .93:
            hist.append(['write', o])
        elif k < .96:
            hist.append([rng.choice(['neither', 'both', 'nokey']), o, lz])
        else:
            hist.append(['construct', o, lz])
    return hist


def judge_access(ctx, cases):
    res = common.run_impl(ctx, 'exec_store.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None or 'error' in r:
            ctx.violation('the implementation gave no answer: %s' % (r or {}).get('error', 'crash or hang'), c)
            continue
        good.append(r)
        ins.append(c)
    for c, g, v in zip(ins, good, common.tlc_verdicts(ctx, 'AccessTrace', good, chunk=3000)):
        ctx.validated += 1
        ctx.note(operations_validated=len(g['events']))
        if v:
            ctx.violation('; '.join(v) + ' history: %s' % c['ops'], c)
        elif len(ctx.samples) < 3:
            ctx.sample({'ops': c['ops'], 'data': [e['data'] for e in g['events']]})


def check_access(ctx):
    env = {'MAXLEN': ctx.scale('6', '10')}
    ok, out = common.tlc(ctx, 'MC_Access', env=env)
    if not ok:
        raise common.MachineryError('MC_Access: the specification violates its invariants:\n' + out[-5000:])
    hists = sorted((x['hist'] for x in common.tlc_lines(out) if 'hist' in x), key=repr)
    ctx.note(model='MC_Access, histories of at most %s accesses' % env['MAXLEN'], model_transitions_exported=len(hists))
    ctx.rng.shuffle(hists)
    pools = [access_logs(random.Random('C16/logs/%d/%d' % (common.SEED, i))) for i in range(ctx.scale(20, 100))]
    with Long(1000):
        pools.append(access_logs(random.Random('C16/long/%d' % common.SEED)))
    cases = [access_case(ctx.rng, h, ctx.rng.choice(pools)) for h in hists[:ctx.scale(900, 6000)]]
    ctx.note(model_histories_replayed=len(cases))
    n = ctx.scale(150, 4000)
    for i in range(n):
        rng = random.Random('C16/%d/%d' % (common.SEED, i))
        cases.append(access_case(rng, random_access(rng, rng.choice([6, 12, 25])), rng.choice(pools)))
    ctx.note(random_histories=n)
    judge_access(ctx, cases)
    return ASSUME


# ---- C22 -----------------------------------------------------------------------
def check_json(ctx):
    env = {'PROFILE': 'C03', 'MAXDEF': '0', 'MAXDATA': ctx.scale('5', '6'), 'EXPORTMOD': ctx.scale('5', '3')}
    ok, out = common.tlc(ctx, 'MC_Logger', env=env)
    if not ok:
        raise common.MachineryError('MC_Logger: the specification violates its invariants:\n' + out[-5000:])
    files = sorted(bytes(x['file']) for x in common.tlc_lines(out) if 'file' in x)
    ctx.rng.shuffle(files)
    files = files[:ctx.scale(200, 2500)]
    ctx.note(model_files_replayed=len(files))
    cases = [{'kind': 'json', 'files': [list(f)], 'via': 'bytesio'} for f in files]
    n = ctx.scale(120, 3000)
    more = ctx.scale(2, 10)
    for i in range(n + more):
        rng = random.Random('C22/%d/%d' % (common.SEED, i))
        with Long(0 if i < n else 700):
            f = gen_log(rng, distinct_ts=True, n_topics=rng.choice([1, 2, 4]), n_data=rng.choice([10, 40]), infos=1,
                        multis=1, params=1, defaults=1, backward=0, bad_data=0)
        cases.append({'kind': 'json', 'files': [list(f)], 'via': rng.choice(['bytesio', 'path', 'file'])})
    ctx.note(random_cases=n)
    for c in cases:
        c['loads'] = [{'file': 1, 'all': 1, 'names': [], 'strict': 0, 'header': 0}]
    judge_content(ctx, cases)
    return ASSUME + ['series whose time stamps repeat are outside the property']


# ---- C19 -----------------------------------------------------------------------
# (logs stored before, program of session 0, program of session 1)
RACES = [
    ([2], [['save', 1]], [['save', 1]]),
    ([2], [['save', 1]], [['find', 1], ['open', 2, 0]]),
    ([2], [['save', 1]], [['save', 3]]),
    ([2], [['save', 1]], [['delete', 2]]),
    ([1, 2], [['delete', 1]], [['open', 1, 0]]),
    ([1, 2], [['open', 1, 0]], [['delete', 1]]),
    ([1, 2], [['open', 1, 1]], [['delete', 1]]),
    ([1, 2], [['open', 1, 0]], [['delete', 1], ['save', 3]]),
    ([1, 2], [['open', 1, 0]], [['delete', 1], ['save', 1]]),
    ([2, 1], [['open', 1, 1]], [['delete', 1], ['save', 3]]),
    ([1, 2], [['delete', 1]], [['save', 1]]),
    ([1, 2], [['delete', 1]], [['delete', 1]]),
    ([1, 2], [['get', 1, 0]], [['delete', 1]]),
    ([1, 2], [['get', 1, 1]], [['delete', 1], ['save', 3]]),
    ([1, 2], [['delete', 1], ['save', 1]], [['get', 1, 2], ['open', 1, 0]]),
    ([1], [['save', 2], ['delete', 1]], [['find', 2], ['save', 2]]),
    ([1, 2], [['delete', 1], ['find', 1]], [['save', 1], ['find', 1]]),
]


def points(rng, n, few):
    """statements at which to switch sessions: the first, the last and some between"""
    pts = set(range(0, min(n, 3 if few else 6) + 1)) | set(range(max(0, n - (2 if few else 4)), n + 1))
    rest = [x for x in range(n + 1) if x not in pts]
    pts |= set(rng.sample(rest, min(len(rest), 3 if few else 8)))
    return sorted(pts)


INF = 10 ** 6


def judge_race(ctx, cases):
    res = common.run_impl(ctx, 'exec_store.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None or 'error' in r:
            ctx.violation('the implementation gave no answer: %s' % (r or {}).get('error', 'crash or hang'), c)
            continue
        good.append(r)
        ins.append(c)
    for c, g, ok in zip(ins, good, common.tlc_accepts(ctx, 'ConcTrace', good)):
        ctx.validated += 1
        if ok is False:
            what = [(o['s'], o['op'], o['c'] or o['p'], o['outcome'], o['content'] or o['pk']) for o in g['ops']]
            ctx.violation('no order of whole operations explains what the sessions reported: %s, '
                          'afterwards %s' % (what, {x: g[x] for x in ('find', 'loads', 'rows', 'counts')}), c)
        elif len(ctx.samples) < 3:
            ctx.sample({'programs': c['programs'], 'phases': c['phases'], 'ops': g['ops']})


def check_race(ctx):
    env = {'SESSIONS': ctx.scale('2', '3'), 'MAXOPS': ctx.scale('5', '5')}
    ok, out = common.tlc(ctx, 'MC_Sessions', env=env)
    if not ok:
        raise common.MachineryError('MC_Sessions: the specification violates its properties:\n' + out[-5000:])
    for cfg in ('MC_SessionsSplitLoad.cfg', 'MC_SessionsSplitSave.cfg'):
        ok, out = common.tlc(ctx, 'MC_Sessions', cfg, env=dict(env, SESSIONS='2'), count=False)
        if ok:
            raise common.MachineryError(cfg + ': the broken protocol satisfies the properties')
    ctx.note(model='MC_Sessions, %(SESSIONS)s sessions and %(MAXOPS)s operations, statement by statement' % env)
    pools = []
    for i in range(ctx.scale(3, 10)):
        rng = random.Random('C19/logs/%d/%d' % (common.SEED, i))
        small = dict(n_data=rng.choice([4, 8]), n_topics=rng.choice([1, 2]), infos=2, multis=3, params=3, defaults=2,
                     late_meta=rng.random() < .5)
        a = gen_filled(rng, **small)
        pools.append([list(a), list(a + U.logstr(0x36, 5, b'another')), list(gen_filled(rng, **small))])
    sizes = common.run_impl(ctx, 'exec_store.py', [{'kind': 'trace', 'file': p[0]} for p in pools])
    ctx.note(statements=[str(s) for s in sizes][:3])
    cases = []
    for r, (stored, a, b) in enumerate(RACES):
        grid = []
        for k, size in enumerate(sizes):
            n = [sum(size[op[0]] for op in prog) + 1 for prog in (a, b)]
            rng = random.Random('C19/%d/%d/%d' % (common.SEED, r, k))
            if common.THOROUGH:
                pa, pb = range(n[0] + 1), points(rng, n[1], False) + [INF]
            else:
                pa, pb = points(rng, n[0], False), points(rng, n[1], True) + [INF]
            grid += [(k, [[0, x], [1, y], [0, INF], [1, INF]]) for x in pa for y in pb]
            for _ in range(ctx.scale(6, 100)):      # more switches
                ph = []
                for q in range(rng.randrange(3, 12)):
                    ph.append([q % 2, rng.randrange(1, 8)])
                grid.append((k, ph + [[0, INF], [1, INF]]))
        rng = random.Random('C19/%d/%d' % (common.SEED, r))
        rng.shuffle(grid)
        for k, ph in grid[:ctx.scale(75, 4000)]:
            cases.append({'kind': 'race', 'files': pools[k], 'stored': stored, 'programs': [a, b], 'phases': ph})
    ctx.note(schedules=len(cases), races=len(RACES))
    judge_race(ctx, cases)
    return ASSUME + ['sessions are threads with connections of their own; switches happen at SQL statements',
                     'an operation may fail with "database is locked" while another session is at work']


CHECKS = {'C19': check_race, 'C22': check_json, 'C16': check_access, 'C15': check_content, 'C17': check_history, 'C18': check_history}
REPLAY = {'C19': judge_race, 'C22': judge_content, 'C16': judge_access, 'C15': judge_content, 'C17': judge_history, 'C18': judge_history}
