"""C35: logs from the database in place of logs from files."""
import random

import common
from checks import tools, writer
from checks.reader import ASSUME
from dbsource import COMPLETE, WRITABLE
from genlog import Gen, Long

# the parts of the check, by the kind of a case
TOOLS = {'changes': 'C31', 'lookup': 'C32', 'attitude': 'C33', 'events': 'C30'}


def rng_for(what, i):
    return random.Random('C35/%s/%d/%d' % (what, common.SEED, i))


def db_via(rng, modes):
    return 'db:%s:%s:%d' % (rng.choice(modes), rng.choice(['bytesio', 'path', 'file']), rng.random() < .3)


def generator(rng, mono):
    return Gen(rng, n_topics=rng.choice([1, 2, 4]), n_data=rng.choice([4, 20]), monotonic_streams=mono, i63=True,
               invalid_text=rng.choice([0, .1]), unknown=rng.choice([0, .05]), infos=5, multis=6, params=5, defaults=5,
               bool_raw=rng.random() < .3, backward=.2, burst=.3, nonfinite=True)


def with_samples(g):
    while True:
        log = g.make()
        if any(m[2:3] == b'D' and len(m) > 8 for m in log.data):
            return log


def random_write(i):
    rng = rng_for('write', i)
    log = with_samples(generator(rng, True))
    c = {'kind': 'write', 'file': list(log.bytes()), 'via': db_via(rng, WRITABLE), 'out': writer.vias(rng)}
    if rng.random() < .25:
        c['names'] = rng.sample(log.topics, rng.randrange(1, len(log.topics) + 1))
    return c


def compare(rng, files):
    """each file as a file and from the database, compared with everything"""
    loads = []
    for k in range(1, len(files) + 1):
        loads += [[k, writer.vias(rng)], [k, db_via(rng, COMPLETE)]]
    loads += [[1, db_via(rng, COMPLETE)] for _ in range(2)]
    rng.shuffle(loads)
    n = len(loads)
    cmps = []
    for a in range(1, n + 1):
        for b in range(a, n + 1):
            x, y = loads[a - 1], loads[b - 1]
            if 'db:' in x[1] + y[1] and (x[0] == y[0] or 1 in (x[0], y[0]) or rng.random() < .15):
                cmps += [[a, b], [b, a]]
    return {'kind': 'eq', 'files': [list(f) for f in files], 'loads': loads, 'cmps': cmps, 'nparts': 0, 'most': 0}


def random_eq(i):
    rng = rng_for('eq', i)
    g = generator(rng, False)
    log = g.make()
    f = log.bytes()
    near = []
    while len(near) < 5:
        x = writer.mutate(rng, log, g)
        if x != f and x not in near:
            near.append(x)
    return compare(rng, [f] + near)


def judge_eq(ctx, cases):
    """files that cannot be loaded, or stored, are not this property: once more without them"""
    again = []
    for c, r in zip(cases, common.run_impl(ctx, 'exec_writer.py', [dict(c, kind='probe') for c in cases])):
        good = [k for k, ok in enumerate(r or [], 1) if ok]
        if 1 in good:
            again.append(compare(random.Random(len(again)), [bytes(c['files'][k - 1]) for k in good])
                         if len(good) < len(c['files']) else c)
        else:
            ctx.note(left_open=1)
    writer.judge_eq(ctx, again)


def tool_modes(tool):
    return COMPLETE + (['lazy'] if tool in ('lookup', 'events') else [])


def random_tool(tool, i):
    rng = rng_for(tool, i)
    c = tools.GENERATORS[TOOLS[tool]][0][0](rng)
    return dict(c, tool=tool, db=rng.choice(tool_modes(tool)))


def model_tools(ctx, tool):
    rng = rng_for(tool + '/model', 0)
    return [dict(tools.model_case(TOOLS[tool], f, rng), tool=tool, db=rng.choice(tool_modes(tool)))
            for f in tools.model_files(ctx, TOOLS[tool], rng, ctx.scale(60, 500))]


def judge(ctx, cases):
    writer.judge_write(ctx, [c for c in cases if c.get('kind') == 'write'])
    judge_eq(ctx, [c for c in cases if c.get('kind') == 'eq'])
    tools.judge(ctx, [c for c in cases if 'tool' in c])


def check(ctx):
    files = writer.model_files(ctx, 'C14')
    rng = rng_for('model', 0)
    cases = [{'kind': 'write', 'file': list(f), 'via': db_via(rng, WRITABLE), 'out': writer.vias(rng)}
             for f in files[:ctx.scale(150, 2000)]]
    near = sorted(files)
    for _ in range(ctx.scale(25, 300)):
        at = rng.randrange(len(near) - 5)
        cases.append(compare(rng, near[at:at + 4] + rng.sample(near, 2)))
    ctx.note(model_replayed=len(cases))
    n = len(cases)
    cases += [random_write(i) for i in range(ctx.scale(80, 1500))]
    cases += [random_eq(i) for i in range(ctx.scale(60, 1000))]
    with Long(300):
        cases += [random_write(10 ** 6 + i) for i in range(ctx.scale(2, 10))]
        cases += [random_eq(10 ** 6)]
    for tool in TOOLS:
        cases += [random_tool(tool, i) for i in range(ctx.scale(60, 1000))]
    ctx.note(random_cases=len(cases) - n)
    for tool in TOOLS:
        some = model_tools(ctx, tool)
        ctx.note(model_replayed=len(some))
        cases += some
    judge(ctx, cases)
    return ASSUME + ['damaged files, formats without fields and integers beyond 63 bits are outside the property']


CHECKS = {'C35': check}
REPLAY = {'C35': judge}
