"""C01-C11: loading files.  Model MC_Logger (exhaustive) and trace validation (ReaderTrace)."""
import random
import struct

import common
import ulogenc as U
from genlog import Gen, Long

ASSUME = [
    'TLC 1.8.0 and the harness (generator, observation through public attributes) are correct',
    'time stamps are uint64 fields named "timestamp" of the topic itself; default groups 0 and 1',
]
# exhaustive model: (definition messages, data messages) quick, thorough
BOUNDS = {
    'C01': ((2, 3), (3, 3)), 'C02': ((2, 2), (2, 3)), 'C03': ((0, 6), (0, 8)), 'C04': ((0, 3), (0, 5)),
    'C05': ((0, 5), (0, 6)), 'C06': ((2, 2), (2, 3)), 'C07': ((0, 4), (0, 5)), 'C08': ((0, 2), (0, 3)),
    'C09': ((2, 3), (3, 3)), 'C10': ((1, 3), (2, 3)), 'C11': ((2, 3), (3, 3)),
}
N_RANDOM = {'C01': 300, 'C02': 300, 'C03': 250, 'C04': 300, 'C05': 90, 'C06': 40, 'C07': 220, 'C08': 200,
            'C09': 260, 'C10': 100, 'C11': 180}


def load(file=1, names=None, strict=0, header=0, via='bytesio', explicit=1):
    return {'file': file, 'all': int(names is None), 'names': [list(n) for n in names or []],
            'strict': strict, 'header': header, 'via': via, 'explicit': explicit}


def case(files, loads, **info):
    return dict(files=[list(f) for f in files], loads=loads, **info)


# ---- the exhaustive model --------------------------------------------------
def model_files(ctx):
    """check MC_Logger and return the files it reaches"""
    p = ctx.prop
    d, n = BOUNDS[p][1 if common.THOROUGH else 0]
    env = {'PROFILE': p, 'MAXDEF': str(d), 'MAXDATA': str(n), 'EXPORTMOD': '1'}
    if p in ('C06', 'C08') or common.THOROUGH:
        env['EXPORTMOD'] = '17' if not common.THOROUGH else '13'
    ok, out = common.tlc(ctx, 'MC_Logger', env=env)
    if not ok:
        raise common.MachineryError('MC_Logger: the specification violates its invariants:\n' + out[-5000:])
    files = [(bytes(x['file']), x['lost']) for x in common.tlc_lines(out) if 'file' in x]
    ctx.note(model='MC_Logger profile %s, at most %d definition and %d data messages' % (p, d, n),
             model_files_exported=len(files))
    return files


def loads_for(p, rng, data):
    via = rng.choice(['bytesio', 'bytesio', 'path', 'file'])
    if p == 'C05':
        return [load(), load(names=[b't']), load(names=[b'tt']), load(names=[]), load(names=[b'tt', b't'])]
    if p == 'C10':
        return [load(via=via, explicit=0), load(strict=1), load(explicit=0), load(strict=1), load()]
    if p == 'C11':
        return [load(header=1, via=via), load(via=via)]
    return [load(via=via)]


def model_cases(ctx, limit):
    files = model_files(ctx)
    files.sort()
    ctx.rng.shuffle(files)
    # a file that ends in unsynchronised damage is only claimed to keep what precedes it
    return [case([f], loads_for(ctx.prop, ctx.rng, f), origin='model') for f, lost in files[:limit]]


# ---- random cases ----------------------------------------------------------
def garbage(rng):
    head = rng.choice([b'\0\0', b'\xff\xff', b'\x11\x27', bytes([rng.randrange(256), 0x30]), b'\x05\0'])
    t = rng.choice([0, 1, 7, 90, 120, 200, 255])
    if head == b'\x05\0' or head == b'\0\0' and rng.random() < .5:
        t = 0 if head == b'\x05\0' else t
    size = head[0] + 256 * head[1]
    if not (t == 0 or size == 0 or size > 10000):
        t = 0
    if rng.random() < .25:      # a plausible size of a type that does not exist
        size = rng.choice([20, 60, 200, 600])
        head, t = struct.pack('<H', size), 0
    n = rng.choice([0, 1, 5, 40, 300, rng.randrange(480, 540), rng.randrange(990, 1030), 700])
    g = head + bytes([t]) + rng.randbytes(n)
    if rng.random() < .2:       # part of a sync sequence inside
        g += U.SYNC[:rng.randrange(1, 8)] + b'\0'
    return g.replace(U.SYNC, b'\0' * 8)


def malformed(rng, data):
    """a message that does not fit its type: a text lacks a part, or (data section) a part is too short"""
    key = rng.choice([b'int32_tno_type', b'x', b'', b'char[4]'])
    kv = bytes([len(key)]) + key + b'\1\2\3\4'
    out = [U.msg('I', kv), U.msg('P', kv), U.msg('M', b'\0' + kv), U.msg('Q', b'\1' + kv)]
    if not data:
        return rng.choice(out + [U.msg('F', rng.choice([b'no_colon', b'mal:uint64_t', b'mal:uint64_t timestamp;float;', b'mal:float;uint64_t timestamp']))] * 3)
    n = rng.choice([0, 1, 3])
    info = U.info('int32_t', 'cut_short', b'\1\2\3\4')[3:]
    out += [U.msg('L', bytes(n * 2)), U.msg('C', bytes(n * 3)), U.msg('O', bytes(n)), U.msg('I', info[:-1]), U.msg('I', info + b'\0'), U.msg('P', info[:-2]),
            U.msg('M', b'\0' + info[:-1]), U.msg('Q', b'\1' + info[:-3]), U.msg('A', bytes(n)), U.msg('D', bytes(n // 3))]
    return rng.choice(out)


def damaged(rng, log):
    """garbage inserted between data messages; mostly followed by a sync"""
    data = list(log.data)
    first = next((i for i, m in enumerate(data) if m[2:3] in (b'A', b'L', b'C')), 0)
    for _ in range(rng.choice([1, 1, 2])):
        at = rng.randrange(first + 1, len(data) + 1)
        g = garbage(rng)
        ins = [g]
        if rng.random() < .85:
            for _ in range(rng.choice([0, 0, 1, 3])):       # lost messages
                ins.append(U.dropout(rng.randrange(100)))
            ins.append(U.sync())
        data[at:at] = ins
    if rng.random() < .25:      # an unknown message over a sync and what follows it
        at = rng.randrange(first + 1, len(data) + 1)
        rest = b''.join(data[at:])
        pre = rng.randbytes(rng.choice([0, 1, 7, 30])).replace(U.SYNC, b'')
        inside = pre + U.sync() + rest[:rng.choice([0, 5, 60])]
        data[at:] = [struct.pack('<HB', len(inside), rng.choice([1, 90, 255])) + pre + U.sync() + rest]
    if rng.random() < .2:       # a subscription to a format that does not exist
        data.insert(rng.randrange(first + 1, len(data) + 1), U.add(rng.randrange(9), 60000, 'no_format'))
    return log.head() + b''.join(log.defs) + b''.join(data)


def appended(rng, gen, damage=True, cut=True):
    """a log with appended segments at the offsets of its flag message"""
    log = gen.make()
    data = list(log.data)
    k = rng.choice([1, 2, 3])
    cuts = sorted(rng.sample(range(1, len(data)), min(k, len(data) - 1)))
    segs, last = [], 0
    for c in cuts:
        segs.append(data[last:c])
        last = c
    segs.append(data[last:])
    defs = [m for m in log.defs if m[2:3] != b'B']
    compat = bytes([rng.randrange(2)] + [0] * 7)
    extra = rng.randbytes(rng.choice([0, 0, 0, 0, 1, 8, 16]))  # a longer flag message

    def build(offs):
        return log.head() + U.flags(compat, (1,) + (0,) * 7, offs, extra) + b''.join(defs)
    body, offs = b'', []
    base = len(build((0, 0, 0)))
    for i, s in enumerate(segs):
        body += b''.join(s)
        if i < len(segs) - 1:
            if rng.random() < .15 and damage:   # damage within the segment
                body += garbage(rng) + U.sync() + U.dropout(9)
            if rng.random() < .6:   # the last message is cut
                m = rng.choice(data + [U.dropout(3), U.logstr(54, 1, 'x' * 60)])
                body += m[:rng.randrange(0, len(m))]
            offs.append(base + len(body))
    if rng.random() < .25 and cut:          # and cut at the end, too
        body = body[:len(body) - rng.randrange(1, 12)]
    offs += [0] * (3 - len(offs))
    if rng.random() < .15:          # the flag is not set: the offsets mean nothing
        whole = b''.join(data)
        offs = [base + rng.randrange(1, len(whole)) if rng.random() < .7 else 0 for _ in range(3)]
        return log.head() + U.flags(compat, (0,) * 8, tuple(offs), extra) + b''.join(defs) + whole
    return build(tuple(offs)) + body


def random_case(p, i):
    rng = random.Random('%s/%d/%d' % (p, common.SEED, i))
    via = rng.choice(['bytesio', 'bytesio', 'path', 'file'])
    small = dict(n_topics=2, n_data=10, infos=2, multis=2, params=2, defaults=2)
    if p == 'C01':
        g = Gen(rng, n_topics=rng.choice([1, 3, 5]), n_data=rng.choice([3, 12]), infos=7, multis=9, params=1,
                defaults=1, huge=.02)
        return case([g.make().bytes()], [load(via=via)])
    if p == 'C02':
        g = Gen(rng, n_topics=2, n_data=25, infos=1, multis=1, params=8, defaults=8, backward=.3)
        return case([g.make().bytes()], [load(via=via)])
    if p == 'C03':
        g = Gen(rng, n_topics=rng.choice([1, 3, 5]), n_data=rng.choice([8, 40]), infos=1, multis=1,
                params=1, defaults=1, texts=rng.random() < .5, huge=.03, lookalike=.2)
        return case([g.make().bytes()], [load(via=via)])
    if p == 'C04':
        g = Gen(rng, n_data=40, infos=1, multis=1, backward=.35)
        return case([g.make().bytes()], [load(via=via)])
    if p == 'C05':
        g = Gen(rng, n_topics=rng.choice([2, 4]), n_data=20, infos=2, multis=2, unknown=.05,
                stray=rng.choice([0, 0, .08]), lookalike=.3)
        log = g.make()
        names = [t.encode() for t in log.topics]
        loads = [load()]
        for _ in range(3):
            sel = rng.sample(names, rng.randrange(0, len(names) + 1))
            if rng.random() < .5:
                sel.append(rng.choice([b'nope', names[0][:-1] or b'x', names[-1] + b'_x', b'', b'a', b'sensor']))
            loads.append(load(names=sel, via=via))
        return case([log.bytes()], loads)
    if p == 'C06':
        log = Gen(rng, **small, unknown=.02).make()
        f = log.bytes()
        ends, pos = [], 16
        for m in log.defs + log.data:
            ends.append(pos)
            pos += len(m)
        cuts = {16, len(f), len(f) - 1, rng.randrange(0, 16), 15, 0}
        for e in rng.sample(ends, min(9, len(ends))):
            cuts |= {e, e + rng.choice([1, 2, 3, 4, 11])}
        cuts |= {rng.randrange(16, len(f)) for _ in range(6)}
        cuts = sorted(c for c in cuts if c <= len(f))
        files = [f[:c] for c in cuts]
        if rng.random() < .5:       # not a ULog at all
            files.append(bytes([f[0] ^ 1]) + f[1:])
            files.append(f[:6] + b'\0' + f[7:])
        return case(files, [load(k + 1, via=via) for k in range(len(files))])
    if p == 'C07':
        g = Gen(rng, n_topics=2, n_data=14, infos=1, multis=1, params=1, defaults=1,
                bad_data=rng.choice([0, .15]), sync=.15, unknown=rng.choice([0, .1]))
        log = g.make()
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < .6:
                    log.defs.insert(rng.randrange(1, len(log.defs) + 1), malformed(rng, False))
                else:
                    first = next((i for i, m in enumerate(log.data) if m[2:3] in (b'A', b'L', b'C')), 0)
                    log.data.insert(rng.randrange(first + 1, len(log.data) + 1), malformed(rng, True))
        f = damaged(rng, log) if rng.random() < .8 else log.bytes()
        return case([f], [load(via=via)])
    if p == 'C08':
        g = Gen(rng, n_topics=2, n_data=14, infos=1, multis=2, params=2, defaults=1, flags=0, unknown=.03)
        return case([appended(rng, g)], [load(via=via)])
    if p == 'C09':
        g = Gen(rng, **{**small, 'n_data': 14}, unknown=.15, flags=1.0, big_unknown=rng.choice([0, 0, .3]))
        log = g.make()
        log.version = rng.choice([0, 1, 2, 77, 255])
        if rng.random() < .4:
            inc = [0] * 8
            k = rng.randrange(8)
            inc[k] = rng.choice([1, 2, 4, 128, 255, 254, 3])
            if rng.random() < .3:
                inc[0] |= 1
            log.defs[0] = U.flags([rng.randrange(256) for _ in range(8)], inc, extra=rng.randbytes(rng.choice([0, 0, 8])))
        elif rng.random() < .7:
            log.defs[0] = U.flags([rng.randrange(256) for _ in range(8)], extra=rng.randbytes(rng.choice([0, 0, 3, 8, 16])))
        else:
            return case([appended(rng, g, damage=False, cut=False)], [load(via=via)])
        return case([log.bytes()], [load(via=via)])
    if p == 'C10':
        def one(bad):
            return Gen(rng, **small, invalid_text=bad, unknown=.02).make().bytes()
        files = [one(0), one(.5), one(rng.choice([0, .2]))]
        loads = []
        for _ in range(8):
            s = rng.randrange(2)
            loads.append(load(rng.randrange(1, 4), strict=s, explicit=int(s or rng.random() < .5), via=via))
        return case(files, loads)
    if p == 'C11':
        g = Gen(rng, n_topics=2, n_data=8, infos=4, multis=4, params=4, defaults=4,
                invalid_text=rng.choice([0, 0, .3]))
        log = g.make()
        head = log.head() + b''.join(log.defs)
        return case([log.bytes(), head], [load(1, header=1, via=via), load(2), load(2, header=1)])
    raise KeyError(p)


def sync_sweep():
    """garbage of every length around the boundaries of a chunked search, then a sync"""
    fmt = U.fmt('t', [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'x')])
    pre = U.header(5) + fmt + U.add(0, 1, 't') + U.data(1, struct.pack('<QB', 10, 1))
    post = U.sync() + U.data(1, struct.pack('<QB', 20, 2)) + U.logstr(54, 21, 'after')
    for base, n in ((256, 12), (512, 26), (1017, 20), (1024, 14), (2027, 14)):
        for k in range(base - n, base + 4):
            fill = b'\xff' if k % 2 else U.SYNC[:7] + b'\xff'
            yield case([pre + b'\xff\xff\x00' + (fill * k)[:k] + post], [load()], origin='sweep')


def judge(ctx, cases):
    res = common.run_impl(ctx, 'exec_reader.py', cases)
    good = []
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer for a log (crash or hang)', c)
        else:
            c['obs'] = r
            good.append(c)
    verdicts = common.tlc_verdicts(ctx, 'ReaderTrace', good)
    for c, v in zip(good, verdicts):
        if v is None:
            ctx.note(left_open=1)
            continue
        ctx.validated += len(c['loads'])
        if v:
            ctx.violation('; '.join(v), c)
        elif len(ctx.samples) < 2:
            ctx.sample({'file_hex': bytes(c['files'][0]).hex()[:400], 'bytes': len(c['files'][0]),
                        'loads': c['loads'][:2], 'origin': c.get('origin', 'random')})
    return good


def check(ctx):
    cases = model_cases(ctx, ctx.scale(350, 6000))
    n = N_RANDOM[ctx.prop] * ctx.scale(1, 15)
    cases += [random_case(ctx.prop, i) for i in range(n)]
    ctx.note(model_replayed=len(cases) - n, random_cases=n)
    # a few logs of a thousand messages and more
    for k in range(ctx.scale(2, 12)):
        with Long({'C06': 400}.get(ctx.prop) or ctx.rng.choice([600, 1200])):
            cases.append(random_case(ctx.prop, 10 ** 6 + k))
    if ctx.prop == 'C07':
        cases += sync_sweep()
    judge(ctx, cases)
    return ASSUME


CHECKS = {'C%02d' % i: check for i in range(1, 12)}
REPLAY = {'C%02d' % i: judge for i in range(1, 12)}
