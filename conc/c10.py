"""C10 Base64."""
import warnings
import common as c
from common import *

AL = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def whole(t):
    U = c.util
    ms = list(t.interesting()) + list(t.msgs(list(range(0, 130)) + [255, 256, 257, 1000, 4095, 4096, 4097]))
    ms += [chr(i) for i in range(256)] + [chr(i) * 3 for i in range(256)] + [chr(t.rng.randrange(256)) + chr(i) for i in range(256)]
    for m in ms:
        e = t.call('encode', U.Base64WSEncode, m)
        t.eq(e, b64e(m), 'web-safe unpadded Base64', m=m)
        t.eq(t.call('decode', U.Base64WSDecode, e), m, 'round trip', m=m)
        # white space anywhere
        for ws in (' ', '\n', '\r\n', '\r', '  \n '):
            i = t.rng.randrange(len(e) + 1)
            t.eq(t.call('decode with white space', U.Base64WSDecode, e[:i] + ws + e[i:]), m, 'white space is ignored', m=m, ws=ws, i=i)
        w = '\n'.join(e[i:i + 4] for i in range(0, len(e), 4)) + '\n'
        t.eq(U.Base64WSDecode(' '.join(w)), m, 'white space everywhere', m=m)
        if len(e) % 4 == 0 and e:
            x = e + t.rng.choice(AL)
            t.raises(c.errors.Base64DecodingError, 'length 1 mod 4', U.Base64WSDecode, x)
            t.raises(c.errors.Base64DecodingError, 'length 1 mod 4 with space', U.Base64WSDecode, x[:3] + ' \n' + x[3:])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for m in ms[:100]:
            t.eq(t.call('Encode', U.Encode, m), b64e(m), 'Encode', m=m)
            t.eq(t.call('Decode', U.Decode, b64e(m)), m, 'Decode', m=m)
    for x in ('A', 'AAAAA', '_', 'A' * 9, ' A', 'A\n', 'AAAA A'):
        t.raises(c.errors.Base64DecodingError, 'length 1 mod 4', U.Base64WSDecode, x)
    for x in ('AA', 'AAA', 'AAAA', '-_-_', '____', '----'):
        t.eq(U.Base64WSDecode(x), b64d(x), 'decodes', x=x)


HOWS = ['one', 'chars', 1, 2, 3, 4, 5, 7, 16, 'rnd', 'rnd', 'rnd']


def encoders(t):
    U = c.util
    for n in list(range(0, 40)) + [100, 255, 1000, 4097]:
        m = t.bs(n)
        for how in HOWS:
            ps = cuts(t.rng, m, how)
            e = U.BufferedIncrementalBase64WSEncoder()
            out = ''
            for p in ps:
                out += t.call('encode piece', e.encode, p)[0]
            out += t.call('flush', e.flush)
            t.eq(out, b64e(m), 'incremental encoder', m=m, cuts=[len(p) for p in ps])
            t.eq(t.call('flush', e.flush), '', 'nothing is left after a flush', m=m)
            t.eq(t.call('encode', e.encode, m)[0] + e.flush(), b64e(m), 'incremental encoder, used again', m=m)
            e.encode('abcd')
            e.reset()
            t.eq(t.call('encode', e.encode, m)[0] + e.flush(), b64e(m), 'incremental encoder after reset', m=m)
            e = U.BufferedIncrementalBase64WSEncoder()
            out = ''.join([e.encode(p)[0] for p in ps[:-1]] + [e.encode(ps[-1] if ps else '', True)[0]])
            t.eq(out, b64e(m), 'incremental encoder, final', m=m, cuts=[len(p) for p in ps])
            s = Sink()
            w = U.IncrementalBase64WSStreamWriter(s)
            for p in ps:
                t.call('write', w.write, p)
            before = s.value()
            t.call('flush', w.flush)
            t.eq(s.value(), b64e(m), 'stream writer', m=m, cuts=[len(p) for p in ps])
            t.ok(s.flushed or s.value() == before, 'what a flush hands on is flushed', m=m, cuts=[len(p) for p in ps])
            t.call('flush', w.flush)
            t.eq(s.value(), b64e(m), 'stream writer, flushed twice', m=m, cuts=[len(p) for p in ps])
            t.call('close', w.close)
            t.eq(s.value(), b64e(m), 'stream writer, flushed and closed', m=m, cuts=[len(p) for p in ps])
            s = Sink()
            w = U.IncrementalBase64WSStreamWriter(s)
            for p in ps:
                w.write(p)
            t.call('close', w.close)
            t.eq(s.value(), b64e(m), 'stream writer, close', m=m, cuts=[len(p) for p in ps])
            t.ok(s.closed, 'close closes the stream')


def decoders(t):
    U = c.util
    for n in list(range(0, 40)) + [100, 255, 1000]:
        m = t.bs(n)
        e0 = b64e(m)
        for how in HOWS:
            for ws in (False, True):
                e = e0
                if ws:
                    for _ in range(3):
                        i = t.rng.randrange(len(e) + 1)
                        e = e[:i] + t.rng.choice([' ', '\n', '\r\n']) + e[i:]
                ps = cuts(t.rng, e, how)
                d = U.BufferedIncrementalBase64WSDecoder()
                out = ''
                for p in ps:
                    out += t.call('decode piece', d.decode, p)[0]
                out += t.call('flush', d.flush)
                t.eq(out, m, 'incremental decoder', text=e, cuts=[len(p) for p in ps])
                t.eq(t.call('flush', d.flush), '', 'nothing is left after a flush', text=e)
                t.eq(t.call('decode', d.decode, e)[0] + d.flush(), m, 'incremental decoder, used again', text=e)
                d = U.BufferedIncrementalBase64WSDecoder()
                out = ''.join([d.decode(p)[0] for p in ps[:-1]] + [d.decode(ps[-1] if ps else '', True)[0]])
                t.eq(out, m, 'incremental decoder, final', text=e, cuts=[len(p) for p in ps])
                # reuse after reset
                d.decode('AAAAA')
                d.reset()
                t.eq(d.decode(e)[0] + d.flush(), m, 'incremental decoder after reset', text=e)
                plan = [max(len(p), 1) for p in ps]
                for size, chars in ((-1, -1), (1, -1), (4, -1), (5, -1), (64, -1), (-1, 1), (-1, 3), (-1, 10), (3, 2), (7, 5), (4, 1), (1, 4), (16, 16)):
                    if how == 'chars' and size > 7:
                        continue
                    src = Source(e, plan)
                    r = U.IncrementalBase64WSStreamReader(src)
                    got = []
                    for _ in range(5 * len(e) + 20):
                        x = t.call('read', r.read, size, chars, text=e, plan=plan, size=size, chars=chars)
                        if x == '':
                            break
                        if x is not None:
                            got.append(x)
                    t.eq(''.join(got), m, 'stream reader', text=e, plan=plan, size=size, chars=chars)
                    t.eq(r.read(size, chars) or '', '', 'stays at the end', text=e)
                # a different demand at every read, now and then for nothing
                r = U.IncrementalBase64WSStreamReader(Source(e, plan))
                got, asked = [], []
                for _ in range(5 * len(e) + 60):
                    ask = t.rng.choice([(0,), (0, -1), (-1, 0), (0, 3), (3,), (1, -1), (5, -1), (4, 2), (-1, 1), (-1, 7)])
                    asked.append(ask)
                    x = t.call('read', r.read, *ask, text=e, plan=plan, asked=asked)
                    if x == '' and 0 not in ask:
                        break
                    got.append(x or '')
                t.eq(''.join(got), m, 'stream reader, mixed demands', text=e, plan=plan, asked=asked)


def nonblocking(t):
    U = c.util
    for n in (0, 1, 2, 3, 5, 10, 33, 100):
        m = t.bs(n)
        e = b64e(m)
        for rep in range(12):
            plan = [t.rng.choice([None, 1, 2, 3, 4, 5, 9]) for _ in range(60)]
            size, chars = t.rng.choice([(1, -1), (4, -1), (5, -1), (-1, -1), (16, -1)])
            # a call that gets nothing at all reports None and loses nothing; bounded waiting
            src = Source(e, plan)
            r = U.IncrementalBase64WSStreamReader(src)
            got = []
            for _ in range(400):
                x = t.call('read', r.read, size, chars, text=e, plan=plan)
                if x == '' and not src.d and not src.plan:
                    break
                if x == '':
                    break
                if x:
                    got.append(x)
            t.eq(''.join(got), m, 'non-blocking stream reader', text=e, plan=plan, size=size)


GROUPS = [whole, encoders, decoders, nonblocking]
