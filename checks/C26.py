"""IMMA1 records: reading and writing"""
import io
import itertools

import IMMA1
from mc.engine import Sub, attempt, Raised, Harness
from mc.immaspec import SPEC

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('records are built by an independent encoder from a frozen transcription of the layout; every field of every attachment takes every value of its alphabet '
        'on empty, minimal and full backgrounds, every non-clashing subset of attachments occurs, records are cut at every column, files hold every short sequence of '
        'record kinds; read, compared value by value, written back and compared text by text; a distinct state is a record text')
BOUNDS = {'quick': 'all values of fields of up to 3 columns, limits of wider ones; all 5184 attachment subsets x 3 fillings; every cut of 6 records',
          'thorough': 'all values of fields of up to 4 columns; all subsets x 3 fillings; every cut of 12 records; files of up to 4 records'}

B36 = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
UNDEF = {'ERRD': [' ', '123', '0', '-45678', '1234567890'], 'SUPD': ['X', 'original data 0001  99', ' lead', '9']}


def values(f, tier, wide=None):
    """texts a field can take, right-justified as written"""
    name, n, scale, enc = f
    if n is None:
        return UNDEF[name]
    if enc == 2:
        return [c.rjust(n) for c in B36] if n == 1 else ['A'.rjust(n)]
    if enc == 3:
        full = 'SHIP1 ABCDE'
        out = {'Z'.ljust(n), ('Q' * n), full[:n], ('0' * n)}
        if n > 1:
            out |= {(' x').ljust(n), 'a'.ljust(n), ('A ' * n)[:n]}
        return sorted(out)
    lim = (4 if tier == 'thorough' else 3) if wide is None else wide
    if n <= lim:
        lo, hi = -(10 ** (n - 1)) + 1, 10 ** n - 1
        return [str(k).rjust(n) for k in range(lo, hi + 1)]
    ks = {0, 1, -1, 5, -5, 9, 10, -10, 10 ** n - 1, -(10 ** (n - 1)) + 1, 10 ** (n - 1), 10 ** (n - 1) - 1, 12345678 % 10 ** n, -(12345678 % 10 ** (n - 1))}
    for d in range(n):
        ks |= {10 ** d, -(10 ** min(d, n - 2)), 7 * 10 ** d, 3 * 10 ** d + 1}
    return [str(k).rjust(n) for k in sorted(ks) if len(str(k)) <= n]


def parse(f, text):
    """reference meaning of a field's columns"""
    if text.strip() == '':
        return None
    name, n, scale, enc = f
    if enc == 3:
        return text
    if enc == 2:
        return B36.index(text)
    k = int(text)
    if scale is None or scale == 1:
        return k
    return k * scale


def filling(att, kind):
    out = {}
    for f in SPEC[att]:
        if kind == 'empty':
            out[f[0]] = ' ' * (f[1] or 1)
        else:
            v = values(f, 'quick', wide=0 if f[3] == 1 else None)
            out[f[0]] = v[0] if kind == 'low' else v[-1]
    return out


def build(recs):
    """recs: list of (attachment, {field: text}) -> full text, without trailing trimming"""
    out = ''
    for att, d in recs:
        body = ''.join(d[f[0]] for f in SPEC[att])
        if att == 0:
            out += body
        elif att == 99:
            out += '99 0' + body
        else:
            L = len(body) + 4
            head = str(L).rjust(2) if L < 100 else B36[L // 36] + B36[L % 36]
            out += str(att).rjust(2) + head + body
    return out


def meaning(recs):
    m = {}
    for att, d in recs:
        for f in SPEC[att]:
            m[f[0]] = parse(f, d[f[0]])
    return m


def cut_meaning(recs, text):
    """meaning of the truncated text, or None when the cut is inside a header"""
    m = {}
    atts = []
    pos = 0
    for att, d in recs:
        if att != 0:
            if pos >= len(text):
                break
            if len(text) < pos + 4:
                return None, None
            pos += 4
        atts.append(att)
        for f in SPEC[att]:
            n = f[1] if f[1] is not None else len(d[f[0]])
            t = text[pos:pos + n]
            if f[1] is not None:
                t = t.ljust(n)
            pos += n
            m[f[0]] = (f, t)
    out = {}
    for k, (f, t) in m.items():
        try:
            out[k] = parse(f, t)
        except ValueError:
            return None, None  # e.g. a minus sign alone
    return out, atts


def same(got, want):
    if set(got) != set(want):
        return 'fields %s' % sorted(set(got) ^ set(want))[:6]
    for k in want:
        a, b = got[k], want[k]
        if a is None or b is None or isinstance(b, str):
            if a != b or isinstance(a, str) != isinstance(b, str):
                return '%s: %r for %r' % (k, a, b)
        elif isinstance(a, str) or abs(a - b) > 1e-9 * max(1, abs(b)):
            return '%s: %r for %r' % (k, a, b)
    return None


def judge(R, key, recs, line=None, writeback=True):
    text = build(recs)
    full = text.rstrip() + '\n'
    if line is None:
        line = full
    want = meaning(recs)
    R.ev()
    R.state(line)
    rec = IMMA1.IMMA()
    r = attempt(rec.readstr, line)
    if isinstance(r, Raised) or not r:
        R.fail('read:' + key, 'a well-formed record was not read', line=line, got=r)
        return
    d = same(rec.data, want)
    if d or list(rec.attachments) != [a for a, _ in recs]:
        R.fail('read:' + key, 'a field was read wrongly', line=line, differs=d, attachments=list(rec.attachments))
        return
    if not writeback:
        return
    out = io.StringIO()
    r = attempt(rec.write, out)
    if isinstance(r, Raised) or out.getvalue() != full:
        R.fail('write:' + key, 'writing a record that was read changed it', line=full, got=out.getvalue() if not isinstance(r, Raised) else r)
        return
    if same(rec.data, want):
        R.fail('write:' + key, 'writing changed the record in memory', line=full)
    # a record built in memory
    mem = IMMA1.IMMA()
    mem.attachments = [a for a, _ in recs]
    for k, v in want.items():
        mem[k] = v
    out = io.StringIO()
    r = attempt(mem.write, out)
    if isinstance(r, Raised) or out.getvalue() != full:
        R.fail('memory:' + key, 'a record built in memory is not written as it should', want=full, got=out.getvalue() if not isinstance(r, Raised) else r)


def gen_field(tier):
    for att in SPEC:
        for f in SPEC[att]:
            for bg in ('empty', 'low', 'high'):
                yield [tier, att, f[0], bg]


def run_field(case, R):
    tier, att, name, bg = case
    f = [g for g in SPEC[att] if g[0] == name][0]
    base = [(0, filling(0, bg))]
    if att != 0:
        base.append((att, filling(att, bg)))
    if att not in (98, 99):
        base.append((98, filling(98, 'low')))
    tgt = [d for a, d in base if a == att][0]
    vs = values(f, tier) if bg == 'empty' else values(f, tier, wide=2)
    for v in vs + [' ' * (f[1] or 1)]:
        tgt[name] = v
        judge(R, '%02d.%s=%s/%s' % (att, name, v.strip(), bg), base, writeback=True)
    R.outcome('encoding %s columns %s' % (f[3], f[1]))
    if f[3] == 1 and f[1] and f[1] > 1:
        # left-justified and zero-padded numbers mean the same
        for k in (1, 5, 10 ** (f[1] - 1) - 1):
            for t in (str(k).ljust(f[1]), str(k).zfill(f[1])):
                tgt[name] = t
                judge(R, '%02d.%s=%r/%s' % (att, name, t, bg), base, writeback=False)


def gen_attach(tier):
    for a in (None, 2, 5):
        for b in (None, 3, 6):
            for c in (None, 4, 7):
                for d in (None, 95, 96):
                    yield [[x for x in (a, b, c, d) if x]]


def run_attach(case, R):
    fixed, = case
    rest = [1, 8, 9, 97, 98, 99]
    for m in range(64):
        atts = sorted(fixed + [a for i, a in enumerate(rest) if m >> i & 1])
        for bg in ('empty', 'low', 'high'):
            recs = [(a, filling(a, 'low' if a == 0 and bg == 'empty' else bg)) for a in [0] + atts]
            judge(R, 'atts %s/%s' % (atts, bg), recs)
    if len(fixed) < 3:
        # an attachment that occurs twice, with the same values
        for a in [1, 8, 9, 97, 98] + fixed:
            for more in ([], [98], [1, 9]):
                atts = sorted(set(fixed + more) - {a}) + [a, a]
                atts.sort()
                for bg in ('low', 'high'):
                    if a == 97 and bg == 'high':
                        continue
                    judge(R, 'twice %s/%s' % (atts, bg), [(x, filling(x, bg)) for x in [0] + atts])
    R.outcome('fixed %d' % len(fixed))


RECS = [[0], [0, 1], [0, 1, 5, 6, 7, 98], [0, 1, 5, 6, 7, 8, 9, 95, 97, 98, 99], [0, 97, 98], [0, 98, 99], [0, 1, 2, 3, 4], [0, 8, 9], [0, 5, 96], [0, 9, 95, 98],
        [0, 1, 98], [0, 7]]


def gen_cut(tier):
    for atts in RECS[:6] if tier == 'quick' else RECS:
        for bg in ('low', 'high'):
            for k in range(16):
                yield [atts, bg, k]


def run_cut(case, R):
    atts, bg, part = case
    recs = [(a, filling(a, bg)) for a in atts]
    text = build(recs)
    for cut in range(1, len(text) + 1):
        if cut % 16 != part:
            continue
        line = text[:cut]
        want, got_atts = cut_meaning(recs, line)
        if want is None:
            R.outcome('not judged')
            continue
        # the undefined-length field of 97 is only known when the record is whole
        if 97 in got_atts and 97 == got_atts[-1] and cut < len(build(recs[:atts.index(97) + 1])):
            R.outcome('not judged')
            continue
        R.outcome('cut')
        for nl in ('', '\n'):
            rec = IMMA1.IMMA()
            r = attempt(rec.readstr, line + nl)
            R.ev()
            R.state(line + nl)
            key = '%s/%s/%d' % (atts, bg, cut)
            if isinstance(r, Raised) or not r:
                R.fail('cut:' + key, 'a record with blank columns cut off was not read', line=line, got=r)
                continue
            d = same(rec.data, want)
            if d or list(rec.attachments) != got_atts:
                R.fail('cut:' + key, 'a record with columns cut off was read wrongly', line=line, differs=d, attachments=list(rec.attachments))


KINDS = [('core', [0], 'low'), ('ship', [0, 1, 98], 'high'), ('blank tail', [0, 1, 5], 'empty0'), ('supplement', [0, 99], 'low')]


def kind(i):
    name, atts, bg = KINDS[i]
    if bg == 'empty0':
        return [(a, filling(a, 'low' if a == 0 else 'empty')) for a in atts]
    return [(a, filling(a, bg)) for a in atts]


def gen_file(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for s in itertools.product(range(len(KINDS)), repeat=n):
            yield [list(s)]


def run_file(case, R):
    seq, = case
    text = ''.join(build(kind(i)).rstrip() + '\n' for i in seq)
    R.state(text)
    for how in ('method', 'function'):
        fh = io.StringIO(text)
        for j, i in enumerate(seq):
            R.trans()
            R.ev()
            if how == 'method':
                rec = IMMA1.IMMA()
                r = attempt(rec.read, fh)
            else:
                rec = attempt(IMMA1.read, fh)
                r = rec
            if isinstance(r, Raised) or not r or same(rec.data, meaning(kind(i))):
                R.fail('file:%s:%s:%d' % (how, seq, j), 'record %d of a file was read wrongly' % j, got=r if isinstance(r, Raised) else same(rec.data, meaning(kind(i))))
                return
        rec = IMMA1.IMMA()
        r = attempt(rec.read, fh)
        R.true('end:%s:%s' % (how, seq), not isinstance(r, Raised) and not r and rec.data == {}, 'the end of the file is not reported', got=r)
    R.outcome('records %d' % len(seq))


def gen_bad(tier):
    for a in range(100):
        if a not in SPEC:
            yield ['att', a]
    for f in SPEC[0]:
        if f[3] == 1:
            yield ['num', f[0]]


def run_bad(case, R):
    what, x = case
    d = filling(0, 'low')
    line = build([(0, d)])
    if what == 'att':
        line += str(x).rjust(2) + '24' + '1' * 20
    else:
        n = [f for f in SPEC[0] if f[0] == x][0][1]
        d[x] = 'x' * n
        line = build([(0, d)])
    rec = IMMA1.IMMA()
    r = attempt(rec.readstr, line + '\n')
    R.state(line)
    R.outcome(what)
    R.true('bad:%s:%s' % (what, x), isinstance(r, Raised), 'text that is no record was taken for one', got=r)


SUBS = [Sub('field', gen_field, run_field), Sub('attach', gen_attach, run_attach), Sub('cut', gen_cut, run_cut), Sub('file', gen_file, run_file),
        Sub('bad', gen_bad, run_bad)]
ASSUMPTIONS = ['the layout (order, columns, scale, encoding) is the transcription in mc/immaspec.py', 'attachments sharing field names (02/05, 03/06, 04/07, 95/96) do not occur together',
               'records cut inside an attachment header, inside a sign, or inside the open-ended attachment 97 are not judged', 'the supplemental attachment comes last']
