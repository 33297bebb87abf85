"""drv.py FDS CASES OUT ORDER: validates every case with the repository's
validator and records what it did. ORDER: fwd or shuf:SEED; every order
validates each case twice, the second time after everything else. thr:SEED: eight threads
validate a sample of the cases, each case in two of them, and switch often."""
import base64
import json
import random
import sys
import threading
import time
import traceback
import warnings

warnings.simplefilter('ignore')
fds, cases, out, order = sys.argv[1:5]
import pbrt  # noqa: E402

pool = pbrt.Pool(open(fds, 'rb').read())
from google.protobuf.message import DecodeError  # noqa: E402

try:
    from protoc_gen_validate import validator as V
except Exception:
    sys.stdout.write('IMPORT ' + traceback.format_exc())
    sys.exit(4)


def observe(m):
    # the generated source of every function is appended to this global;
    # copying it again and again would take most of the time
    if len(getattr(V, 'printer', '')) > 1 << 20 and isinstance(V.printer, str):
        V.printer = ''
    before = m.SerializeToString()
    try:
        r = V.validate(m)
        k, t = 'T', '' if r is None else 'returned ' + repr(r)[:200]
    except V.ValidationFailed as e:
        k, t = 'F', str(e)
    except RecursionError:
        k, t = 'R', ''
    except Exception as e:
        k, t = 'X', type(e).__module__ + '.' + type(e).__name__ + ': ' + str(e)
    try:
        if m.SerializeToString() != before:
            k, t = 'M', 'the message changed'
    except Exception as e:
        k, t = 'M', 'the message can no longer be serialised: ' + str(e)
    return k, t[:400].encode('utf-8', 'replace').decode('utf-8')


cs = [json.loads(l) for l in open(cases)]
if order.startswith('shuf:'):
    # message types in random order, and an interleaved sample at the start
    R = random.Random(int(order[5:]))
    groups = {}
    for c in cs:
        groups.setdefault(c['m'], []).append(c)
    head = R.sample(cs, min(len(cs), 300))
    ids = set(c['i'] for c in head)
    keys = sorted(groups)
    R.shuffle(keys)
    cs = head[:]
    for k in keys:
        R.shuffle(groups[k])
        cs.extend(c for c in groups[k] if c['i'] not in ids)


def threaded():
    # few cases of many types: compiling the functions is what may race
    R = random.Random(int(order[4:]))
    groups = {}
    for c in cs:
        groups.setdefault(c['m'], []).append(c)
    take = []
    for k in sorted(groups):
        take.extend(R.sample(groups[k], min(len(groups[k]), 12)))
    R.shuffle(take)
    sys.setswitchinterval(1e-6)
    res = [[] for _ in range(8)]
    gate = threading.Barrier(8)
    waves = [take[i:i + 64] for i in range(0, len(take), 64)]

    def work(t):
        # everyone starts each wave together; every case has two threads
        for w in waves:
            gate.wait()
            for c in w[t % 4::4] if t < 4 else w[t % 4::4][::-1]:
                try:
                    m = pool.cls(c['m']).FromString(base64.b64decode(c.get('b') or ''))
                except DecodeError:
                    res[t].append({'i': c['i'], 'k': 'B', 'm': ''})
                    continue
                a = time.time_ns()
                k, x = observe(m)
                res[t].append({'i': c['i'], 'k': k, 'm': x, 'a': a, 'b': time.time_ns()})

    ts = [threading.Thread(target=work, args=(t,)) for t in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    first = {}
    with open(out, 'w') as f:
        for o in (o for r in res for o in r):
            p = first.setdefault(o['i'], o)
            if p is o:
                f.write(json.dumps(o) + '\n')
            elif (p['k'], p['m']) != (o['k'], o['m']):
                f.write(json.dumps({'i': o['i'], 'k': 'D', 'm': 'one thread %s %s, another %s %s' % (p['k'], p['m'], o['k'], o['m'])}) + '\n')
        f.write('DRV-OK\n')


if order.startswith('thr:'):
    threaded()
    sys.stdout.write('DRV-OK\n')
    sys.exit(0)
first = {}
with open(out, 'w') as f:
    for rnd in (1, 2):
        for c in cs:
            try:
                m = pool.cls(c['m']).FromString(base64.b64decode(c.get('b') or ''))
            except DecodeError:
                if rnd == 1:
                    f.write(json.dumps({'i': c['i'], 'k': 'B', 'm': ''}) + '\n')
                continue
            a = time.time_ns()
            k, t = observe(m)
            b = time.time_ns()
            if rnd == 1:
                first[c['i']] = (k, t)
                f.write(json.dumps({'i': c['i'], 'k': k, 'm': t, 'a': a, 'b': b}) + '\n')
            elif first[c['i']] != (k, t):
                f.write(json.dumps({'i': c['i'], 'k': 'D', 'm': 'first %s %s, later %s %s' % (first[c['i']] + (k, t))}) + '\n')
    f.write('DRV-OK\n')
sys.stdout.write('DRV-OK\n')
