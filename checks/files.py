"""C36: the tools make their documented files, and change no others."""
import random

import common
import ulogenc as U
from checks.reader import ASSUME
from checks.tools import Build, data_log


TOPICS = ['x', 'y', 'x_y', 'x_1', 'y_0', 'x/y', 'gps', 'a_very_long_topic_name']
# names of two logs and their directories; the names of their outputs overlap
NAMES = [(('logs', 'a.ulg'), ('logs', 'a_x.ulg')), (('logs', 'a.ulg'), ('logs', 'a.ULG')), (('logs', 'a'), ('logs', 'a.ulg')),
         (('logs', 'log.ulg'), ('work', 'log.ulg')), (('work', 'a.ulg'), ('work', 'a_x_y.ulg')),
         (('logs', 'flight.1.ulg'), ('logs', 'flight.ulg')), (('logs', 'a.ulg.ulg'), ('out', 'a.ulg')),
         (('logs/sub.ulg', 'a b.Ulg'), ('logs', 'sub.ulg.ulg')), (('work', 'b\u00e4r.ulg'), ('logs', 'b.ulgx')),
         (('logs', 'aulg'), ('logs', 'ulg')), (('work', '.ulg'), ('work', '_.ulg'))]
KINDS = {'csv': {}, 'csvout': {'dir': 'out'}, 'csvsome': {'some': 1}, 'gps': {}, 'gpsout': {'dir': 'out', 'instance': 1},
         'kml': {}, 'kmlout': {'out': 'out/t.kml'}, 'params': {}, 'paramsout': {'out': 'out/p.txt'},
         'write': {'out': 'out/w.ulg'}, 'read': {},
         # only in random histories (a directory that does not exist is made by the command line tool only)
         'store': {'out': 'out/db.sqlite3'}, 'csvnew': {'dir': 'new', 'cli': 1}, 'paramsdefault': {'out': 'out/p.txt', 'needs': 1},
         'gpswork': {'dir': 'logs', 'instance': 0}}
TOOL = {'csv': 'csv', 'gps': 'gps', 'kml': 'kml', 'par': 'params', 'wri': 'write', 'rea': 'load', 'sto': 'store'}
MODEL_KINDS = 11


def make_log(rng, positions=True):
    """(log, topics): a log for all of the tools"""
    b = Build(rng.choice([0, 2000000, 7999999]))
    names = rng.sample(TOPICS, rng.choice([1, 2, 3]))
    if 'x/y' in names and 'x_y' in names and rng.random() < .9:
        names.remove('x/y')
    t = b.start
    for n in names:
        b.fmt(n, ('uint8_t', 'v'), ('char', 3, 's'), ('float', 'f'))
    gps = rng.random() < .7
    b.fmt('gps_dump', ('uint8_t', 'instance'), ('uint8_t', 'len' if rng.random() < .93 else 'length'),
          ('uint8_t', 4, 'data' if rng.random() < .95 else 'bytes'))
    b.fmt('vehicle_gps_position', ('int32_t', 'lat'), ('int32_t', 'lon'), ('int32_t', 'alt'))
    b.fmt('vehicle_status', ('uint8_t', 'nav_state'))
    for k, v in rng.sample([('P', 1), ('PA', 2), ('Q', -3), ('R_X', 7)], rng.randrange(5)):
        b.defs.append(U.param(k, 'int32_t', v.to_bytes(4, 'little', signed=True)))
    if rng.random() < .4:
        b.defs.append(U.param_default(rng.choice([1, 2, 3]), 'P', 'int32_t', bytes(4)))
    topics = []
    for n in names:
        for m in rng.sample([0, 0, 1, 2, 10, 255], rng.choice([1, 1, 2])):
            if (n, m) not in topics:
                b.sub(n, m)
                topics.append((n, m))
    if gps:
        b.sub('gps_dump')
        topics.append(('gps_dump', 0))
    if positions:
        b.sub('vehicle_gps_position')
        topics.append(('vehicle_gps_position', 0))
        if rng.random() < .6:
            b.sub('vehicle_status')
            topics.append(('vehicle_status', 0))
    unused = rng.choice(topics) if rng.random() < .2 and len(topics) > 1 else None
    for _ in range(rng.choice([4, 12, 30])):
        t += rng.choice([1, 200000, 1000000])
        n, m = rng.choice(topics)
        if (n, m) == unused:
            continue
        if n == 'gps_dump':
            b.body.append(b.row(n, t, [rng.randrange(2), rng.choice([0, 1, 4, 128, 130, 132]), list(rng.randbytes(4))], m))
        elif n == 'vehicle_gps_position':
            b.body.append(b.row(n, t, [rng.randrange(-90, 90) * 10 ** 6 for _ in range(3)], m))
        elif n == 'vehicle_status':
            b.body.append(b.row(n, t, [rng.randrange(4)], m))
        else:
            b.body.append(b.row(n, t, [rng.randrange(256), [bytes([c]) for c in rng.choice([b'abc', b'a\0b', b'\0\0\0', b'xy\xff'])], rng.uniform(-5, 5)], m))
        if rng.random() < .15:
            b.body.append(U.logstr(54, t, rng.choice([b'text', b'tab\t', b'\xff'])))
        if rng.random() < .1:
            b.body.append(U.param('P', 'int32_t', bytes(4)))
    return b.bytes(), topics


def gen_log(rng):
    x = rng.random()
    if x < .75:
        return make_log(rng, rng.random() < .8)
    if x < .9:
        g, log = data_log(rng, n_data=6, bad_data=rng.choice([0, .05]), invalid_text=rng.choice([0, .05]))
        return log.bytes(), [(n, m) for _, m, n in log.subs]
    log, topics = make_log(rng)
    cut = rng.choice([0, 8, 16, 40, rng.randrange(len(log))])
    return log[:cut], topics


def run_of(rng, kind, log, topics):
    k = KINDS.get(kind, {})
    r = {'tool': TOOL.get(kind[:3], kind), 'log': log, 'out': list(k.get('out', '').encode()), 'dir': list(k.get('dir', '').encode()),
         'all': 1, 'names': [], 'instance': k.get('instance', 0), 'cli': k.get('cli', int(rng.random() < .5)),
         'absolute': int(rng.random() < .5), 'strict': int(rng.random() < .15), 'needs': k.get('needs', 0), 'format': '', 'ts': 0, 'te': 0, 'options': {}}
    if r['tool'] in ('csv', 'params', 'extract'):
        r['ts'], r['te'] = (rng.choice([0, 0, 0, 2]), rng.choice([0, 0, 0, 5]))
    if k.get('some') or r['tool'] == 'extract':
        r['all'] = 0
        r['names'] = [list(n.encode()) for n in sorted({n for n, _ in rng.sample(topics, min(len(topics), 2))} | {'none'})]
        if r['tool'] == 'extract':
            rng.shuffle(r['names'])
    if r['tool'] == 'kml':
        r['options'] = {'style': rng.choice([None, None, {'line_width': 7}, {'extrude': True}, {'extrude': True, 'line_width': 1}]),
                        'altitude_offset': rng.choice([None, None, 10]), 'minimum_interval_s': rng.choice([None, None, 1.5]),
                        'position_topic_name': rng.choice([None, None, None, 'x'])}
    if r['tool'] == 'params':
        r['format'] = rng.choice(['csv', 'octave', 'qgc', ''])
    return r


def stem(base):
    return base[:-4] if base.lower().endswith('.ulg') else base


def others_of(rng, paths, logs, runs):
    """files with similar names, and older outputs"""
    res = {}
    stale = b'older content\n' * rng.choice([0, 1, 400])
    for (d, base), (_, topics) in zip(paths, logs):
        s = stem(base)
        out = ['%s/%s_%s_%d.csv' % (x, s, n.replace('/', '_'), m) for n, m in topics for x in (d, 'out')]
        out += ['%s/%s_%d_%s_device.dat' % (x, s, i, w) for i in (0, 1) for w in ('to', 'from') for x in ('work', 'out')]
        out += ['work/track.kml', 'out/t.kml', 'out/p.txt', 'out/w.ulg']
        for p in rng.sample(out, rng.choice([0, 1, 3, len(out)])):
            res[p] = stale
        near = [p + x for p in out for x in ('~', '.tmp', '.bak', '.part')] + [p[:-4] for p in out]
        near += ['%s/%s.csv' % (d, s), '%s/%s.ulg' % (d, s), '%s/%s_00_to_device.dat' % (d, s), '%s/%s.kml' % (d, s),
                 'work/params.txt', 'out/%s.ulg' % s, '%s/%s.ulg.tmp' % (d, s), 'work/log.db', 'out/db.sqlite3-journal.bak']
        for p in rng.sample(near, 4):
            res[p] = b'keep ' + p.encode()
    if any(r['tool'] == 'store' for r in runs):
        res.pop('out/db.sqlite3', None)
    logs_at = {'%s/%s' % p for p in paths}
    return [[list(p.encode()), list(c)] for p, c in sorted(res.items())
            if p not in logs_at and not p.endswith('/') and not any(q.startswith(p + '/') for q in list(res) + sorted(logs_at))]


def concrete(rng, hist):
    """hist: kinds of runs and the logs they read"""
    logs = [gen_log(rng), gen_log(rng)]
    paths = rng.choice(NAMES)
    if rng.random() < .5:
        paths = paths[::-1]
    runs = [run_of(rng, k, l, logs[l - 1][1]) for k, l in hist]
    # runs that are repeated are often exactly the same
    for i in range(1, len(runs)):
        if rng.random() < .5:
            for j in range(i):
                if hist[j] == hist[i]:
                    runs[i] = runs[j]
    if rng.random() < .1:       # a log is written over itself
        r = run_of(rng, 'write', 1, logs[0][1])
        r['out'] = list(('%s/%s' % paths[0]).encode())
        runs.append(r)
    return {'files': [list(f) for f, _ in logs], 'paths': [[list(x.encode()) for x in p] for p in paths],
            'others': others_of(rng, paths, logs, runs), 'runs': runs}


def judge(ctx, cases):
    res = common.run_impl(ctx, 'exec_files.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer (crash or hang)', c)
            continue
        good.append({'files': c['files'], 'paths': c['paths'], 'start': r['start'],
                     'runs': [{k: v for k, v in dict(a, **b).items() if k != 'options'} for a, b in zip(c['runs'], r['runs'])]})
        ins.append(c)
    for c, g, v in zip(ins, good, common.tlc_verdicts(ctx, 'FilesTrace', good, chunk=400)):
        if v is None:
            ctx.note(left_open=1)
            continue
        ctx.validated += 1
        ctx.note(runs_validated=len(g['runs']))
        for r in g['runs']:
            ctx.note(**{'runs_%s_%s' % (r['tool'], 'ok' if r['outcome'] == 'ok' else 'refused'): 1})
        if v:
            ctx.violation('; '.join(v), c)
        elif len(ctx.samples) < 3:
            ctx.sample({'runs': [[r['tool'], r['log'], r['outcome']] for r in g['runs']]})


def check(ctx):
    env = {'MAXLEN': '3'}
    ok, out = common.tlc(ctx, 'MC_Files', env=env)
    if not ok:
        raise common.MachineryError('MC_Files: the specification violates its properties:\n' + out[-5000:])
    hists = sorted((x['hist'] for x in common.tlc_lines(out) if 'hist' in x), key=repr)
    ctx.note(model='MC_Files: %d kinds of runs, two logs, sequences of %s runs' % (MODEL_KINDS, env['MAXLEN']),
             model_sequences_exported=len(hists))
    ctx.rng.shuffle(hists)
    hists = hists[:ctx.scale(500, len(hists))]
    cases = [concrete(random.Random('C36/model/%d/%d' % (common.SEED, i)), h) for i, h in enumerate(hists)]
    ctx.note(model_sequences_replayed=len(cases))
    n = ctx.scale(250, 6000)
    for i in range(n):
        rng = random.Random('C36/%d/%d' % (common.SEED, i))
        kinds = list(KINDS) + ['info', 'messages', 'extract']
        cases.append(concrete(rng, [(rng.choice(kinds), rng.choice([1, 1, 2])) for _ in range(rng.choice([1, 4, 8]))]))
    ctx.note(random_sequences=n)
    judge(ctx, cases)
    return ASSUME


CHECKS = {'C36': check}
REPLAY = {'C36': judge}

