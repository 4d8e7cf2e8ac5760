"""C12-C14: writing logs and comparing them."""
import random
import struct

import common
import ulogenc as U
from genlog import Gen, Long
from checks.reader import ASSUME

BOUNDS = {'C12': ((1, 2), (2, 3)), 'C13': ((0, 3), (1, 4)), 'C14': ((1, 2), (2, 3))}


def model_files(ctx, profile=None):
    profile = profile or ctx.prop
    d, n = BOUNDS[profile][1 if common.THOROUGH else 0]
    env = {'PROFILE': profile, 'MAXDEF': str(d), 'MAXDATA': str(n), 'EXPORTMOD': ctx.scale('1', '5')}
    ok, out = common.tlc(ctx, 'MC_Logger', env=env)
    if not ok:
        raise common.MachineryError('MC_Logger: the specification violates its invariants:\n' + out[-5000:])
    files = sorted(bytes(x['file']) for x in common.tlc_lines(out) if 'file' in x)
    ctx.note(model='MC_Logger profile %s, at most %d definition and %d data messages' % (profile, d, n),
             model_files_exported=len(files))
    ctx.rng.shuffle(files)
    return files


def vias(rng):
    return rng.choice(['bytesio', 'path', 'file'])


def random_write(ctx, i):
    rng = random.Random('%s/%d/%d' % (ctx.prop, common.SEED, i))
    mono = ctx.prop == 'C12' or rng.random() < .5
    g = Gen(rng, n_topics=rng.choice([1, 2, 4]), n_data=rng.choice([8, 30]), monotonic_streams=mono,
            bool_raw=rng.random() < .3, invalid_text=rng.choice([0, .1]), unknown=rng.choice([0, .05]),
            bad_data=rng.choice([0, .05]), infos=5, multis=7, params=5, defaults=5,
            backward=rng.choice([.1, .4]), burst=.35, lookalike=.1, huge=rng.choice([0, 0, .02]),
            **rng.choice([{}, {}, {'steps': [0, 0, 0, 1, 2], 'big_ts': False},
                          # neighbours that a double cannot tell apart
                          {'steps': [0, 1, 1, 2], 'back': 3, 'big_ts': False, 'start': rng.choice([1 << 53, (1 << 62) + 5])}]))
    while True:
        log = g.make()
        if rng.random() < .1:       # many entries of one key
            log.defs += [U.multi(j % 3 == 2, 'int32_t', 'entries', bytes([j, 0, 0, 0])) for j in range(rng.choice([9, 20]))]
        # at least one dataset; ids and parameters of the definition section keep their meaning
        if any(m[2:3] == b'D' and len(m) > 8 for m in log.data):
            break
    data = log.bytes()
    if rng.random() < .15 and any(m[2:3] == b'B' for m in log.defs):
        # the original has data appended
        k = next(j for j, m in enumerate(log.defs) if m[2:3] == b'B')
        cut = rng.randrange(1, len(log.data) + 1)
        off = 16 + sum(map(len, log.defs)) + sum(map(len, log.data[:cut]))
        m = log.defs[k]
        log.defs[k] = U.flags(m[3:11], (1,) + (0,) * 7, (off, 0, 0), m[43:])
        data = log.bytes()
    case = {'kind': 'write', 'file': list(data), 'via': vias(rng), 'mono': mono}
    if rng.random() < .25:      # loaded with a topic filter
        case['names'] = rng.sample(log.topics, rng.randrange(1, len(log.topics) + 1))
    return case


def no_dataset(o):
    return o.get('outcome') == 'ok' and not o['before']['data']


def judge_write(ctx, cases):
    res = common.run_impl(ctx, 'exec_writer.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer (crash or hang)', c)
        elif r['outcome'] == 'unsavable' or no_dataset(r):
            ctx.note(left_open=1)
        else:
            good.append(r)
            ins.append(c)
    for c, o, v in zip(ins, good, common.tlc_verdicts(ctx, 'WriterTrace', good)):
        ctx.validated += 1
        if v:
            ctx.violation('; '.join(v) + ' ' + o.get('detail', ''), c)
        elif len(ctx.samples) < 2:
            ctx.sample({'file_hex': bytes(c['file']).hex()[:400], 'bytes': len(c['file']),
                        'written_bytes': len(o['w1']), 'via': c['via']})


def check_write(ctx):
    cases = [{'kind': 'write', 'file': list(f), 'via': vias(ctx.rng)}
             for f in model_files(ctx)[:ctx.scale(700, 6000)]]
    n = ctx.scale(110, 2500)
    cases += [random_write(ctx, i) for i in range(n)]
    with Long(500):
        cases += [random_write(ctx, 10 ** 6 + i) for i in range(ctx.scale(2, 10))]
    ctx.note(model_replayed=len(cases) - n, random_cases=n)
    judge_write(ctx, cases)
    return ASSUME + ['logs without any dataset are outside the property']


# ---- C14 -------------------------------------------------------------------
def flip(rng, m, lo, hi=None):
    """change one byte of a message within [lo, hi)"""
    hi = len(m) if hi is None else hi
    if hi <= lo:
        return m
    k = rng.randrange(lo, hi)
    return m[:k] + bytes([m[k] ^ rng.choice([1, 2, 0x10, 0x40, 0x80])]) + m[k + 1:]


def rekey(m, at):
    """another last letter of the key"""
    end = at + 1 + m[at]
    return m[:end - 1] + (b'x' if m[end - 1:end] != b'x' else b'y') + m[end:]


def mutate_format(rng, m):
    name, fields = m[3:].split(b':')
    fs = [f for f in fields.split(b';') if f]
    i = rng.randrange(len(fs))
    t, f = fs[i].split(b' ')
    kind = rng.choice(['swap', 'swap', 'rename', 'type', 'size', 'add', 'del', 'scalar'])
    if kind == 'swap' and len(fs) > 1:
        j = rng.choice([k for k in range(len(fs)) if k != i])
        fs[i], fs[j] = fs[j], fs[i]
    elif kind == 'rename' and f != b'timestamp':
        fs[i] = t + b' ' + f + b'z'
    elif kind == 'type':
        fs[i] = t.replace(b'uint', b'int') + b' ' + f if f != b'timestamp' else fs[i]
    elif kind == 'size' and b'[' in t:
        a, n = t.rstrip(b']').split(b'[')
        fs[i] = a + b'[%d] ' % (int(n) + 1) + f
    elif kind == 'scalar' and f != b'timestamp':    # an array of one element, and a scalar
        fs[i] = (t[:-3] if t.endswith(b'[1]') else t if b'[' in t else t + b'[1]') + b' ' + f
    elif kind == 'del' and f != b'timestamp' and len(fs) > 1:
        del fs[i]
    else:
        fs.append(b'uint8_t zzz')
    return U.msg('F', name + b':' + b';'.join(fs) + b';')


def mutate(rng, log, gen):
    """bytes of a log that differs at one place"""
    defs, data, head = list(log.defs), list(log.data), log.head()
    kind = rng.choice(['msg', 'msg', 'msg', 'drop', 'swap', 'dup', 'head', 'add', 'rename', 'defs', 'multi'])
    if kind == 'head':
        return head[:8] + struct.pack('<Q', log.start + rng.choice([1, 256, 1 << 20])) + b''.join(defs + data)
    if kind in ('rename', 'multi'):
        subs = [i for i, m in enumerate(data) if m[2:3] == b'A']
        i = rng.choice(subs)
        m = data[i]
        if kind == 'multi':
            data[i] = m[:3] + bytes([(m[3] + rng.choice([1, 100])) % 256]) + m[4:]
        else:   # same fields under another name
            name = m[6:].decode()
            new = name + 'q'
            log2 = {**log.formats, new: log.formats[name]}
            defs.append(U.fmt(new, log2[new]))
            data[i] = U.add(m[3], m[4] + 256 * m[5], new)
        return head + b''.join(defs + data)
    lst = defs if kind == 'defs' or (kind != 'msg' and rng.random() < .3) else data
    if not lst:
        lst = data
    pick = rng.randrange(len(lst))
    # prefer rare message types
    kinds = sorted({m[2:3] for m in lst})
    k = rng.choice(kinds)
    pick = rng.choice([i for i, m in enumerate(lst) if m[2:3] == k])
    m = lst[pick]
    if kind == 'drop':
        del lst[pick]
    elif kind == 'dup':
        lst.insert(pick, m)
    elif kind == 'swap':
        j = rng.randrange(len(lst))
        lst[pick], lst[j] = lst[j], lst[pick]
    elif kind == 'add':
        lst.insert(pick, rng.choice([gen.one_info, gen.one_multi, gen.one_param, gen.one_default])())
    elif k == b'D':
        lst[pick] = flip(rng, m, 5)
    elif k == b'L':
        lst[pick] = flip(rng, m, 3, rng.choice([4, 12, None]))
    elif k == b'C':
        lst[pick] = flip(rng, m, 3, rng.choice([4, 6, 14, None]))
    elif k == b'O':
        lst[pick] = flip(rng, m, 3)
    elif k in (b'I', b'P'):
        lst[pick] = flip(rng, m, 4 + m[3]) if rng.random() < .7 else rekey(m, 3)
    elif k in (b'M', b'Q'):
        lst[pick] = flip(rng, m, 5 + m[4]) if rng.random() < .6 else (
            rekey(m, 4) if rng.random() < .5 else m[:3] + bytes([m[3] ^ (1 if k == b'M' else 3)]) + m[4:])
    elif k == b'F':
        lst[pick] = mutate_format(rng, m)
    return head + b''.join(defs + data)


def random_eq(ctx, i):
    rng = random.Random('C14/%d/%d' % (common.SEED, i))
    g = Gen(rng, n_topics=2, n_data=10, infos=4, multis=4, params=4, defaults=4, chars=True,
            backward=.1, param_double=False)
    log = g.make()
    f = log.bytes()
    files = [f] + [mutate(rng, log, g) for _ in range(10)]
    fmts = [i for i, m in enumerate(log.defs) if m[2:3] == b'F']
    for _ in range(3):      # formats, also ones without samples
        i = rng.choice(fmts)
        files.append(log.head() + b''.join(log.defs[:i] + [mutate_format(rng, log.defs[i])] + log.defs[i + 1:]
                                           + log.data))
    other = Gen(rng, n_topics=1, n_data=5).make().bytes()
    files.append(other)
    loads, cmps = [], []
    for k in rng.sample(range(1, len(files) + 1), len(files)):
        loads.append([k, vias(rng)])
    loads.append([1, vias(rng)])
    loads.append([rng.randrange(1, len(files) + 1), vias(rng)])
    for a in range(1, len(loads) + 1):
        for b in range(a, len(loads) + 1):
            if 1 in (loads[a - 1][0], loads[b - 1][0]) or rng.random() < .15:
                cmps += [[a, b], [b, a]]
    rng.shuffle(cmps)
    return {'kind': 'eq', 'files': [list(x) for x in files], 'loads': loads, 'cmps': cmps, 'nparts': 8, 'most': 5}


def judge_eq(ctx, cases):
    res = common.run_impl(ctx, 'exec_writer.py', cases)
    good, ins = [], []
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer (crash or hang)', c)
        elif r['outcome'] != 'ok':
            # a mutation may have made a file invalid: not this property
            ctx.note(left_open=1)
        else:
            good.append({'files': c['files'], 'loads': [x[0] for x in c['loads']],
                         'db': [int(x[1].startswith('db:')) for x in c['loads']], 'cmps': r['cmps'], 'parts': r['parts']})
            ins.append(c)
    for c, g, v in zip(ins, good, common.tlc_verdicts(ctx, 'EqTrace', good)):
        if v is None:
            ctx.note(left_open=1)
            continue
        ctx.validated += len(g['cmps'])
        if v:
            ctx.violation('; '.join(v), c)
        elif len(ctx.samples) < 2:
            ctx.sample({'file_hex': bytes(c['files'][0]).hex()[:300], 'loads': c['loads'], 'cmps': g['cmps'][:8]})


def model_eq(ctx):
    """logs of the model that are close to each other, each pair compared"""
    files = sorted(model_files(ctx))
    n = 12
    starts = ctx.rng.sample(range(0, len(files) - n, n // 2), min(ctx.scale(40, 600), (len(files) - n) // (n // 2)))
    cases = []
    for s in starts:
        some = files[s:s + n // 2] + ctx.rng.sample(files, n // 2)
        loads = [[k, vias(ctx.rng)] for k in list(range(1, len(some) + 1)) + [1]]
        pairs = [[a, b] for a in range(1, len(loads) + 1) for b in range(1, len(loads) + 1)]
        cases.append({'kind': 'eq', 'files': [list(x) for x in some], 'loads': loads, 'cmps': pairs, 'nparts': 20, 'most': 4})
    ctx.note(model_groups=len(cases))
    return cases


def check_eq(ctx):
    cases = model_eq(ctx) + [random_eq(ctx, i) for i in range(ctx.scale(110, 1500))]
    with Long(250):
        cases += [random_eq(ctx, 10 ** 6 + i) for i in range(ctx.scale(2, 10))]
    judge_eq(ctx, cases)
    return ASSUME + ['-0.0 and 0.0, and values of different declared types, are left open']


CHECKS = {'C12': check_write, 'C13': check_write, 'C14': check_eq}
REPLAY = {'C12': judge_write, 'C13': judge_write, 'C14': judge_eq}
