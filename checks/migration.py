"""C20, C21: migrations of the database schema."""
import random

import common
from checks.store import gen_log

ASSUME = [
    'TLC 1.8.0 and the harness (fault injection through sqlite3, comparison of schemas) are correct',
    'databases of older schema versions are built from the scripts as they were published '
    '(harness/schemas), with time stamps below 2^53',
    'while no script has been applied, an existing file counts as foreign and needs the force option',
]


def model_histories(ctx):
    env = {'MAXRUNS': ctx.scale('2', '3')}
    ok, out = common.tlc(ctx, 'MC_Migration', env=env)
    if not ok:
        raise common.MachineryError('MC_Migration: the specification violates its properties:\n' + out[-5000:])
    hists = sorted((x['hist'] for x in common.tlc_lines(out) if 'hist' in x), key=repr)
    ctx.note(model='MC_Migration: 3 scripts, %s runs' % env['MAXRUNS'], model_transitions_exported=len(hists))
    ctx.rng.shuffle(hists)
    return hists


def judge(ctx, cases):
    res = common.run_impl(ctx, 'exec_migration.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None or 'error' in r:
            ctx.violation('the implementation gave no answer: %s' % (r or {}).get('error', 'crash or hang'), c)
            continue
        good.append(r)
        ins.append(c)
    for c, g, ok in zip(ins, good, common.tlc_accepts(ctx, 'MigrationTrace', good, chunk=3000)):
        ctx.validated += 1
        ctx.note(runs_validated=len(g['events']))
        if ok is False:
            ctx.violation('start %s, runs %s: reported %s, which no behaviour of the specification gives' % (
                c['start'], c['runs'], [{x: e[x] for x in e if x != 'scripts'} for e in g['events']]), c)
        elif len(ctx.samples) < 3:
            ctx.sample({'start': c['start'], 'runs': c['runs'], 'outcomes': [e['outcome'] for e in g['events']]})


def from_history(rng, hist, log):
    """runs for the executor from a history of the model"""
    _, start, scripts = hist[0]
    kinds, runs = list(scripts), []
    for h in hist[1:]:
        if h[0] == 'run':
            runs.append({'noop': h[1], 'force': h[2], 'scripts': list(kinds), 'cli': int(rng.random() < .25)})
        elif h[0] == 'died':
            runs[-1]['fault'] = rng.choice([
                {'kind': 'kill', 'n': rng.randrange(1, 30)}, {'kind': 'kill', 'n': rng.randrange(1, 12)},
                {'kind': 'raise', 'n': rng.randrange(1, 8)}, {'kind': 'interrupt', 'n': rng.randrange(1, 60)},
                {'kind': 'reader'}, {'kind': 'writer'}])
            if start == -2 and runs[-1]['fault']['kind'] in ('reader', 'writer') and len(runs) == 1:
                runs[-1]['fault'] = {'kind': 'kill', 'n': 5}
        elif h[0] == 'repair':
            kinds = ['good'] * len(kinds)
    return {'kind': 'scripts', 'start': start, 'cur': 3, 'style': rng.randrange(24), 'runs': runs, 'log': log}


def random_scripts(rng, log):
    cur = rng.choice([1, 2, 4, 5, 9, 11])
    kinds = [rng.choice(['good'] * 6 + ['missing', 'unwrapped', 'failing']) for _ in range(cur + rng.choice([0, 2]))]
    kinds += ['missing'] * (cur - len(kinds))
    start = rng.choice([-2, -1] + list(range(1, cur + 2)))
    runs = []
    for _ in range(rng.choice([1, 2, 4])):
        run = {'noop': int(rng.random() < .2), 'force': int(rng.random() < .4), 'scripts': list(kinds),
               'cli': int(rng.random() < .3)}
        if rng.random() < .4 and start != -2:
            run['fault'] = rng.choice([{'kind': 'kill', 'n': rng.randrange(1, 50)},
                                       {'kind': 'raise', 'n': rng.randrange(1, 12)},
                                       {'kind': 'interrupt', 'n': rng.randrange(1, 100)},
                                       {'kind': 'reader'}, {'kind': 'writer'}])
        runs.append(run)
        if rng.random() < .5:
            kinds = [k if rng.random() < .3 else 'good' for k in kinds]
    return {'kind': 'scripts', 'start': start, 'cur': cur, 'style': rng.randrange(24), 'runs': runs, 'log': log}


def check_scripts(ctx):
    log = list(gen_log(random.Random('C21/log'), n_data=4, n_topics=1))
    hists = model_histories(ctx)[:ctx.scale(1200, 9000)]
    cases = [from_history(ctx.rng, h, log) for h in hists]
    ctx.note(model_histories_replayed=len(cases))
    n = ctx.scale(300, 5000)
    cases += [random_scripts(random.Random('C21/%d/%d' % (common.SEED, i)), log) for i in range(n)]
    ctx.note(random_histories=n)
    judge(ctx, cases)
    return ASSUME


def check_real(ctx):
    pools = []
    for i in range(ctx.scale(4, 16)):
        rng = random.Random('C20/logs/%d/%d' % (common.SEED, i))
        small = dict(big_ts=False, n_data=rng.choice([6, 15]), n_topics=rng.choice([1, 2]))
        pools.append([list(gen_log(rng, **small)) for _ in range(rng.choice([2, 3]))])
    sizes = common.run_impl(ctx, 'exec_migration.py', [{'kind': 'count'}])[0]
    sizes = {int(k): v for k, v in (sizes or {str(v): [10, 150] for v in range(5)}).items()}
    ctx.note(statements={str(k): v[1] for k, v in sizes.items()})
    # the statement-level model, for the protocol itself
    model_histories(ctx)
    again = {'noop': 0, 'force': 1}
    plain = {'noop': 0, 'force': 0}
    cases = []

    def add(start, runs, rng):
        cases.append({'kind': 'real', 'start': start, 'logs': rng.choice(pools), 'hole': int(rng.random() < .3),
                      'probe': rng.randrange(3), 'runs': runs})
    for start in (-2, -1, 1, 2, 3, 4, 5):
        rng = random.Random('C20/%d/%d' % (common.SEED, start))
        for _ in range(ctx.scale(4, 40)):
            add(start, [dict(plain, cli=rng.randrange(2)), dict(again)], rng)
            add(start, [{'noop': 1, 'force': rng.randrange(2)}, dict(plain), dict(again)], rng)
        calls, traces = sizes.get(max(0, start), [3, 5])
        for n in range(1, traces + 2, ctx.scale(max(1, traces // 24), 1)):
            add(start, [dict(again, fault={'kind': 'kill', 'n': n}), dict(again)], rng)
        for n in range(1, calls + 2):
            add(start, [dict(again, fault={'kind': 'raise', 'n': n}), dict(again)], rng)
        if start != -2:
            for k in ('reader', 'writer'):
                add(start, [dict(again, fault={'kind': k}), dict(again)], rng)
        for n in range(3, 900, ctx.scale(90, 7)):
            add(start, [dict(again, fault={'kind': 'interrupt', 'n': n}), dict(again)], rng)
        for _ in range(ctx.scale(6, 100)):      # several deaths one after another
            runs = [dict(again, fault={'kind': 'kill', 'n': rng.randrange(1, traces + 2)})
                    for _ in range(rng.choice([2, 3]))]
            add(start, runs + [dict(again)], rng)
    ctx.note(histories=len(cases))
    judge(ctx, cases)
    return ASSUME


CHECKS = {'C20': check_real, 'C21': check_scripts}
REPLAY = {'C20': judge, 'C21': judge}
