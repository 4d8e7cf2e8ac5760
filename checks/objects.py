"""C34: log objects are independent of each other."""
import random

import common
import ulogenc as U
from genlog import Gen

ASSUME = [
    'TLC 1.8.0 and the harness (generator, observation through public attributes) are correct',
    'one thread; the policy for invalid text is the same for all loads of a history (C10 covers the policy)',
]


SAME_SIZE = {'int32_t': ['float', 'uint32_t'], 'float': ['int32_t', 'uint32_t'], 'uint32_t': ['float'], 'int8_t': ['uint8_t', 'char'],
             'uint8_t': ['int8_t', 'bool'], 'int16_t': ['uint16_t'], 'uint16_t': ['int16_t'], 'double': ['int64_t', 'uint64_t'],
             'int64_t': ['double'], 'bool': ['uint8_t'], 'char': ['int8_t', 'uint8_t']}


def renamed(rng, defs):
    """the same messages, but formats with other types or names of the fields, and layouts of the same size"""
    out = []
    only_nested = rng.random() < .5
    for m in defs:
        if m[2:3] == b'F' and not (only_nested and b' timestamp;' in m):
            name, rest = m[3:].split(b':', 1)
            fields = []
            for f in rest.split(b';')[:-1]:
                t, n = f.decode().split(' ')
                base, arr = t.split('[')[0], t[len(t.split('[')[0]):]
                if n != 'timestamp' and base in U.SIZE and not n.startswith('_padding'):
                    r = rng.random()
                    if r < .4:
                        base = rng.choice(SAME_SIZE.get(base, [base]))
                    elif r < .6:
                        n += 'n'
                fields.append('%s%s %s;' % (base, arr, n))
            m = U.msg('F', name + b':' + ''.join(fields).encode())
        out.append(m)
    return out


def pool(rng):
    """two contents that have much in common, and one that is refused"""
    g = Gen(rng, n_topics=rng.choice([1, 2]), n_data=rng.choice([5, 9]), infos=3, multis=3, params=3, defaults=3,
            max_array=2, big_arrays=False, burst=0, lookalike=.2, bad_data=rng.choice([0, .1]))
    log = g.make()
    a = log.bytes()
    r = rng.random()
    if r < .3:      # the same topics, the same sizes, but other fields
        log.defs = renamed(rng, log.defs)
        b = log.bytes()
    elif r < .6:    # the same definitions, other data
        other = log.bytes() + b''.join(g.sample(log, rng.choice(log.subs), log.start + 77 + i) for i in range(2))
        b = other + U.logstr(0x35, log.start + 99, b'more') + U.param('A', 'int32_t', b'\1\2\3\4')
    elif r < .75:   # the same topics with other formats and ids
        g2 = Gen(rng, n_topics=1, n_data=6, infos=3, multis=3, params=3, defaults=3, max_array=2, big_arrays=False, burst=0)
        b = g2.make().bytes()
    else:           # the same length
        b = bytearray(a)
        b[8:16] = bytes(x ^ 1 for x in b[8:16])
        b = bytes(b)
    bad = rng.choice([b'', a[:10], b'ULoh' + a[4:], U.header(3) + U.flags(incompat=(4,) + (0,) * 7)])
    name = rng.choice(log.topics).encode()
    options = [{'all': 1, 'names': [], 'header': 0}, {'all': 0, 'names': [list(name)], 'header': 0},
               {'all': 1, 'names': [], 'header': 1}]
    if rng.random() < .3:
        options[1]['names'] = []
    return [list(a), list(b), list(bad)], options, [(n, m) for _, m, n in log.subs]


def concrete(rng, hist, p):
    """operations with their details"""
    files, options, subs = p
    ops = []
    for h in hist:
        op = {'op': h[0], 'k': h[1]}
        if h[0] == 'load':
            op.update(f=h[2], o=h[3], via=rng.choice(['path', 'path', 'file']) if h[4] else 'bytesio')
        elif h[0] in ('lookup', 'unknown'):
            name, multi = rng.choice(subs)
            if h[0] == 'unknown':
                name, multi = rng.choice([(name, multi + 1), (name + 'x', multi), (name[:-1], multi), (name.upper(), multi),
                                          (name, (multi + 128) % 256), ('', 0)])
            op.update(op='lookup', name=name, multi=multi, short=rng.randrange(2))
        elif h[0] == 'write':
            op['via'] = rng.choice(['path', 'bytesio'])
        elif h[0] == 'spoil':
            op['how'] = rng.randrange(6)
        ops.append(op)
    return {'files': files, 'options': options, 'ops': ops}


def random_history(rng, n):
    hist, alive, bad = [], set(), set()
    while len(hist) < n:
        k, x = rng.randrange(1, 5), rng.random()
        if x < .4 or not alive:
            f = rng.choice([1, 1, 2, 2, 3])
            hist.append(['load', k, f, rng.choice([1, 1, 2, 3]), rng.randrange(2)])
            if f != 3:
                alive.add(k)
                bad.discard(k)
        elif k not in alive:
            continue
        elif x > .92:
            hist.append(['drop', k])
            alive.discard(k)
            bad.discard(k)
        elif k in bad:
            continue
        elif x > .82:
            hist.append(['spoil', k])
            bad.add(k)
        else:
            hist.append([rng.choice(['lookup', 'lookup', 'unknown', 'query', 'query', 'write']), k])
    return hist


def judge(ctx, cases):
    res = common.run_impl(ctx, 'exec_objects.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer (crash or hang)', c)
            continue
        good.append(dict(r, files=c['files'], options=c['options']))
        ins.append(c)
    for c, g, v in zip(ins, good, common.tlc_verdicts(ctx, 'ObjectsTrace', good, chunk=1000)):
        if v is None:
            ctx.note(left_open=1)
            continue
        ctx.validated += 1
        ctx.note(operations_validated=len(g['events']))
        if v:
            ctx.violation('; '.join(v), c)
        elif len(ctx.samples) < 3:
            ctx.sample({'ops': c['ops'], 'outcomes': [e['outcome'] for e in g['events']]})


def check(ctx):
    env = {'MAXLEN': ctx.scale('4', '6')}
    ok, out = common.tlc(ctx, 'MC_Objects', env=env)
    if not ok:
        raise common.MachineryError('MC_Objects: the specification violates its properties:\n' + out[-5000:])
    hists = sorted((x['hist'] for x in common.tlc_lines(out) if 'hist' in x), key=repr)
    ctx.note(model='MC_Objects: two objects, histories of at most %s operations' % env['MAXLEN'],
             model_transitions_exported=len(hists))
    ctx.rng.shuffle(hists)
    longest = [h for h in hists if len(h) == int(env['MAXLEN'])][:ctx.scale(800, 9000)]
    pools = [pool(random.Random('C34/logs/%d/%d' % (common.SEED, i))) for i in range(ctx.scale(30, 120))]
    cases = [concrete(ctx.rng, h, ctx.rng.choice(pools)) for h in longest]
    ctx.note(model_histories_replayed=len(cases))
    n = ctx.scale(250, 5000)
    for i in range(n):
        rng = random.Random('C34/%d/%d' % (common.SEED, i))
        cases.append(concrete(rng, random_history(rng, rng.choice([6, 12, 25])), rng.choice(pools)))
    ctx.note(random_histories=n)
    judge(ctx, cases)
    return ASSUME


CHECKS = {'C34': check}
REPLAY = {'C34': judge}
