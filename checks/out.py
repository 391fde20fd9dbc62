"""Outputs: what is written where, in which order, and what happens when writing fails."""
import itertools
import json
import re
from .lib import *
from .cfg import out, flatouts

STDOUT, FILE, CSV, TSV, SCALAR, VECTOR = 0, 1, 0, 1, 0, 1
NAMES = {0: 'xi_cent', 1: 'xi_west', 2: 'xi_east', 3: 'c_sound', 4: 't', 5: 'iter', 6: 'dt', 7: 'dt_kind'}
KINDS = ['init', 'cfl', 'err']
FOLDERS = ['', 'out', 'out', 'out/a/b', 'other']
FILES = ['', 'f', 'g']


def dname(k):
    return NAMES[k] if k < 10 else '%s_%d' % (('prim', 'cons')[k >= 20], k % 10)


def fname(o, k, nmax):
    base = FOLDERS[o[3]] + '/' + FILES[o[4]]
    if o[2] == VECTOR:
        base += '_%0*d' % (len(str(nmax)), k)
    return base + ('.tsv' if o[1] else '.csv')


def metaname(o):
    return FOLDERS[o[3]] + '/' + FILES[o[4]] + ('_' if o[2] else '') + '_metadata.json'


def tokens(o, line):
    """fields of a line, or None if it is not laid out as configured"""
    if o[1] == CSV:
        return line.split(',')
    if line[:1] not in '# ':
        return None
    return line[1:].split()


class Block(object):
    """what one output writes at one time: an optional header and rows of expected cells"""

    def __init__(self, o, header, rows):
        self.o, self.header, self.rows = o, header, rows

    def __len__(self):
        return len(self.rows) + (self.header is not None)

    def match(self, P, lines, tag):
        """None if the texts do not fit; otherwise goals about the numbers"""
        o, gs = self.o, []
        prec = o[8]
        if len(lines) != len(self):
            return None
        if self.header is not None:
            if (o[1] == TSV) != lines[0].startswith('#') or tokens(o, lines[0]) != self.header:
                return None
            lines = lines[1:]
        for r, (line, row) in enumerate(zip(lines, self.rows)):
            tk = tokens(o, line)
            if tk is None or len(tk) != len(row) or (o[1] == TSV and not line.startswith(' ')):
                return None
            for j, (x, want) in enumerate(zip(tk, row)):
                if isinstance(want, (str, int)):
                    if x != str(want):
                        return None
                    continue
                if not re.fullmatch(r'-?\d%se-?\d+' % (r'\.\d{%d}' % prec if prec else ''), x):
                    if not (not isT(want) and not math.isfinite(want)):
                        return None
                v = number(P, x)
                nm = '%s row %d, %s' % (tag, r, dname(o[10 + j]))
                if isT(v) or isT(want):
                    gs.append(EQ(nm, v, want))
                else:
                    gs.append(OK(nm, int(v == want or abs(v - want) <= 0.501 * 10.0 ** -prec * max(abs(v), abs(want)) or (v != v and want != want))))
        return gs


def lines(text):
    ls = text.decode().split('\n')
    return ls[:-1] if ls[-1] == '' else None


def match_all(P, ls, blocks, tag):
    """goals: `ls` is the blocks, each one whole, in some order"""
    if ls is not None and sum(len(b) for b in blocks) == len(ls):
        for perm in itertools.permutations(blocks):
            gs, i = [], 0
            for b in perm:
                g = b.match(P, ls[i:i + len(b)], tag)
                if g is None:
                    break
                gs += g
                i += len(b)
            else:
                return gs
    return [OK('%s has the expected header, rows and fields' % tag, 0)]


def match_rounds(P, ls, rounds, tag):
    """`rounds`: list of lists of blocks"""
    n = [sum(len(b) for b in r) for r in rounds]
    gs = [OK('%s holds every output' % tag, int(ls is not None and sum(n) == len(ls)))]
    if ls is None or sum(n) != len(ls):
        return gs
    i = 0
    for k, r in zip(n, rounds):
        gs += match_all(P, ls[i:i + k], r, tag)
        i += k
    return gs


# ------------------------------------------------------------------ the writer alone
def rounds_of(inp, S, rnds):
    """per round: iteration, kind, and the values of every data name"""
    E, per, rs = 2, 2 + 5 * S, []
    for k, (it, kind) in enumerate(rnds):
        v = inp[k * per:(k + 1) * per]
        d = {4: v[0], 6: v[1], 5: it, 7: KINDS[kind]}
        for j in range(E):
            d[10 + j] = v[2 + j * S:2 + (j + 1) * S]
            d[20 + j] = v[2 + (E + j) * S:2 + (E + j + 1) * S]
        d[3] = v[2 + 2 * E * S:2 + (2 * E + 1) * S]
        rs.append(d)
    return rs


def block(o, d, xi, S, first):
    names = o[10:]
    cells = [0] if o[2] == SCALAR else list(range(S)) if o[7] else list(range(2, S - 2))
    d = dict(d)
    for k in range(3):
        d[k] = xi[k::3]
    rows = [[d[k][i] if isinstance(d[k], list) else d[k] for k in names] for i in cells]
    return Block(o, [dname(k) for k in names] if first or o[2] == VECTOR else None, rows)


def expected(outs, vals, xi, S, nmax, start):
    """files: path -> list of rounds of blocks; and the same for stdout"""
    files, std = {}, []
    for k, d in enumerate(vals):
        rnd = []
        for o in outs:
            b = block(o, d, xi, S, k == 0)
            if o[0] == STDOUT:
                rnd.append(b)
            elif o[2] == VECTOR:
                files[fname(o, start + k, nmax)] = [[b]]
            else:
                files.setdefault(fname(o, start + k, nmax), []).append([b])
        std.append(rnd)
    return files, std


def dirs(names):
    r = set()
    for n in names:
        d = os.path.dirname(n)
        while d:
            r.add(d)
            d = os.path.dirname(d)
    return r


def after(files, outs):
    """files left over when all outputs are set up"""
    left = dict(files or {})
    for o in outs:
        if o[0] == FILE and o[5] == 1:
            f = FOLDERS[o[3]]
            left = {k: v for k, v in left.items() if k != f and not k.startswith(f + '/')}
    return left


def written(P, outs, vals, xi, S, nmax, start, files=None, meta=0):
    fs, std = expected(outs, vals, xi, S, nmax, start)
    gs = []
    left = after(files, outs)
    names = set(fs)
    metas = [metaname(o) for o in outs if o[0] == FILE and o[6] == 1] if meta else []
    want = names | set(metas) | dirs(names | set(metas)) | set(left) | {FOLDERS[o[3]] for o in outs if o[0] == FILE} | dirs(FOLDERS[o[3]] for o in outs if o[0] == FILE)
    gs.append(OK('exactly the expected files exist', int(set(P.files) == want)))
    for k, v in left.items():
        if k not in names and k not in metas:
            gs.append(OK('other file %s is left alone' % k, int(P.files.get(k) == v)))
    for k, rs in fs.items():
        txt = P.files.get(k)
        gs += match_rounds(P, lines(txt) if txt is not None else None, rs, k)
    for k in metas:
        gs.append(OK('%s is a JSON text' % k, int(isjson(P.files.get(k)))))
    ls = lines(P.stdout)
    if meta:
        for o in outs:
            if o[0] == STDOUT and o[6] == 1:
                ls, good = drop_json(ls)
                gs.append(OK('metadata on stdout', int(good)))
    gs += match_rounds(P, ls, std, 'stdout')
    return gs


def isjson(b):
    try:
        json.loads(b)
        return True
    except (TypeError, ValueError):
        return False


def drop_json(ls):
    if ls is None or not ls or ls[0] != '{' or '}' not in ls:
        return ls, False
    k = ls.index('}')
    return ls[k + 1:], isjson('\n'.join(ls[:k + 1]))


def writer_case(c, name, outs, rnds, S=6, nmax=2, start=0, meta=0, files=None, free=None, **limits):
    """free: data names whose values are symbolic (all by default)"""
    E, per = 2, 2 + 5 * S
    inp = []
    for k in range(len(rnds)):
        inp += [sym('t%d' % k), sym('dt%d' % k)]
        inp += [sym('p%d_%d_%d' % (k, j, i)) for j in range(E) for i in range(S)]
        inp += [sym('u%d_%d_%d' % (k, j, i)) for j in range(E) for i in range(S)]
        inp += [sym('c%d_%d' % (k, i)) for i in range(S)]
    no = limits.get('orders', 0)
    inp += [sym('order%d' % k) for k in range(no)]
    par = [nmax] + flatouts(outs) + [meta, start, len(rnds)] + [x for r in rnds for x in r]
    p = min([o[8] for o in outs])

    def goals(inp, P):
        gs = [OK('succeeds', okay(P))]
        xi = P.out[:3 * S]
        gs += written(P, outs, rounds_of(inp, S, rnds), xi, S, nmax, start, files, meta)
        gs.append(OK('the output counter is advanced', eq(P.out[3 * S], float(start + len(rnds)))))
        if limits.get('races'):
            gs.append(OK('outputs written at the same time touch nothing in common', int(not P.races)))
        return gs

    def gen(rng):
        r = [rng.choice([rng.uniform(-3, 3), rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30), 0.0]) for _ in range(per * len(rnds))]
        return r + [rng.choice([0.0, 1.0]) for _ in range(no)]
    c.scenario(name, 'vh_writer' if S == 6 else 'vh_writer7', inp, 3 * S + 1, par, [], goals, gen=gen, expect='ok', io=True, files=files,
               tol=0.501 * 10.0 ** -p, nvalid=1, **limits)


# ------------------------------------------------------------------ C20 what is written
def content(c):
    R1, R2, R3 = [(7, 1)], [(0, 0), (12345, 1)], [(0, 0), (1, 1), (2, 2)]
    ALL = (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 20, 21)
    REV = tuple(reversed(ALL))
    SC = (4, 5, 6, 7)
    cases = [
        ('csv-scalar', [out(data=SC)], R3, 6), ('tsv-scalar', [out(fmt=1, data=(7, 6, 5, 4), prec=6)], R3, 6),
        ('csv-scalar-stdout', [out(0, data=(6, 4, 4, 7, 5), prec=17)], R3, 6), ('tsv-scalar-stdout', [out(0, 1, data=SC, prec=1)], R2, 6),
        ('csv-vector', [out(conv=1, data=ALL, prec=9)], R2, 6), ('tsv-vector', [out(fmt=1, conv=1, data=REV, prec=4)], R2, 6),
        ('csv-vector-ghosts', [out(conv=1, data=REV, ghosts=1)], R2, 6), ('tsv-vector-ghosts', [out(fmt=1, conv=1, data=ALL, ghosts=1, prec=12)], R1, 6),
        ('csv-vector-stdout', [out(0, conv=1, data=ALL)], R2, 6), ('tsv-vector-stdout', [out(0, 1, 1, data=REV, ghosts=1)], R2, 6),
        ('odd-cells', [out(conv=1, data=ALL)], R1, 7), ('odd-cells-ghosts', [out(0, 1, conv=1, data=ALL, ghosts=1)], R1, 7),
        ('one-column', [out(conv=1, data=(11,)), out(data=(7,), name=2)], R2, 6),
        ('many', [out(0, data=SC), out(1, 1, 1, data=(0, 10, 20), ghosts=1, clear=0, prec=5), out(1, 0, 0, data=(5, 4), name=2, prec=8, clear=0)], R2, 6),
        ('precision-0', [out(data=SC, prec=0), out(conv=1, fmt=1, data=(0, 21), prec=0, name=2, clear=0)], R1, 6),
    ]
    if c.tier == 'thorough':
        for p in (1, 2, 5, 7, 8, 11, 15, 16, 20, 30):
            cases.append(('precision-%d' % p, [out(fmt=p % 2, conv=1, data=ALL, prec=p, ghosts=p % 3 == 0), out(0, p % 2, data=SC, prec=p)], R2, 6))
        for k in ALL:
            cases.append(('single-%s' % dname(k), [out(conv=1, data=(k,), fmt=1), out(0, conv=1, ghosts=1, data=(k, 5))], R2, 7))
        cases.append(('long', [out(data=SC), out(conv=1, data=(10, 11), name=2, clear=0)], [(k, 1) for k in range(6)], 6))
    for name, outs, rnds, S in cases:
        writer_case(c, name, outs, rnds, S)
    c.flush()
    c.bounds.append('every value of time, step, prim, cons and sound speed (also printed numbers stand for the exact values: the digits produced by the standard library are compared on concrete runs only); '
                    '6 and 7 cells, up to 3 outputs in time (thorough: 6), both formats, streams and conversions, with and without ghost cells, precisions 0 to 17 (thorough: 30), every data name')


# ------------------------------------------------------------------ C19 where it is written
def lifecycle(c):
    OLD = {'out': None, 'out/f.csv': b'old 1\nold 2\nold 3, a line longer than what is written now, so that a missing truncation shows......................\n' * 4,
           'out/g.csv': b'other\n', 'out/f_0.csv': b'x' * 3000, 'out/sub': None, 'out/sub/deep.txt': b'deep', 'data.txt': b'unrelated'}
    D = (4, 5)
    R2, R3 = [(0, 0), (3, 1)], [(0, 0), (1, 1), (2, 2)]
    cases = [
        ('keep', [out(clear=0, data=D)], R3, 2, 0, 0, OLD), ('clear', [out(clear=1, data=D)], R2, 2, 0, 0, OLD),
        ('keep-vector', [out(clear=0, conv=1, data=(4, 10))], R2, 2, 0, 0, OLD), ('clear-vector', [out(clear=1, conv=1, data=(4, 10))], R2, 2, 0, 1, OLD),
        ('slash', [out(clear=0, folder=2, data=D)], R2, 2, 0, 1, OLD), ('slash-clear', [out(clear=1, folder=2, conv=1, data=(4, 10))], R2, 2, 0, 0, OLD),
        ('nested', [out(clear=0, folder=3, data=D, meta=1)], R2, 2, 0, 1, None), ('nested-old', [out(clear=1, folder=3, conv=1, data=(3,))], R2, 2, 0, 0, OLD),
        ('no-folder-yet', [out(clear=1, data=D)], R2, 2, 0, 0, None),
        ('meta', [out(clear=0, meta=1, data=D), out(clear=0, fmt=1, name=2, meta=0, data=D)], R2, 2, 0, 1, OLD),
        ('meta-vector', [out(clear=1, meta=1, conv=1, data=(4, 10))], R2, 2, 0, 1, OLD), ('meta-stdout', [out(0, meta=1, data=D), out(clear=0, meta=1, data=D)], R2, 2, 0, 1, OLD),
        ('two-files', [out(clear=0, data=D), out(clear=0, name=2, data=D, fmt=1)], R3, 2, 0, 0, OLD),
        ('two-folders', [out(clear=1, data=D), out(clear=0, folder=4, data=D)], R2, 2, 0, 0, OLD),
        ('stdout-only', [out(0, 0, 0, 1, 1, 1, 0, data=D)], R2, 2, 0, 0, OLD),
        ('table-and-series', [out(clear=0, data=D), out(clear=0, conv=1, data=(4, 10))], R3, 9, 0, 0, OLD),
    ]
    for nmax, start in ((1, 0), (9, 8), (10, 9), (99, 0), (100, 9), (1000, 998)):
        cases.append(('numbered-%d-%d' % (nmax, start), [out(clear=0, conv=1, fmt=start % 2, data=(4, 11))], R2 if nmax > 9 or not start else R2[:1], nmax, start, 0, None))
    if c.tier == 'thorough':
        for nmax, start in ((2, 0), (11, 10), (999, 998), (1001, 999), (9999, 9998), (10000, 9999), (100000, 1)):
            cases.append(('numbered-%d-%d' % (nmax, start), [out(0, data=D), out(clear=1, conv=1, data=(4, 11))], R2, nmax, start, 1, OLD))
        for clear in (0, 1):
            for folder in (1, 2, 3, 4):
                for conv in (0, 1):
                    for fmt in (0, 1):
                        cases.append(('f%d%d%d%d' % (clear, folder, conv, fmt), [out(1, fmt, conv, folder, 2, clear, 1, data=(4,))], R2, 2, 0, 1, OLD))
    for name, outs, rnds, nmax, start, meta, files in cases:
        writer_case(c, name, outs, rnds, 6, nmax, start, meta, files)
    full_runs(c, OLD)
    c.flush()
    c.bounds.append('1 to 2 outputs, 1 to 3 times, numbers of outputs 1 to 1000 (thorough: 100000), with and without earlier files in the folder, all written values symbolic; whole runs with 1 to 3 outputs in time, symbolic end time, with and without a failure')


def full_case(c, name, n, outs, banner=0, fail=0, files=None, goals=None, kind=None, orders=0):
    inp = [sym('t_end')]
    if orders:
        inp += [sym('order%d' % k) for k in range(orders)]
    if kind is not None:
        inp.append(sym('nth'))
    pre = [lt(0, inp[0]), le(F(1, 100), inp[0]), le(inp[0], F(10 ** 6))]
    lim = {}
    if orders:
        lim['orders'] = orders
    if kind is not None:
        lim['fault'] = kind

    def gen(rng):
        r = [rng.uniform(0.1, 9)] + [rng.choice([0.0, 1.0]) for _ in range(orders)]
        return r + ([float(rng.choice([-1, 0, 1, 2, 3, 5, 8]))] if kind is not None else [])
    c.scenario(name, 'vh_full', inp, 2, [n] + flatouts(outs) + [banner, fail], pre, goals, gen=gen, expect='any', io=True, files=files, tol=1e-6, nvalid=2, **lim)


BANNER = b'# ****************************************\n'


def full_expect(outs, inp, n, fail, t, it):
    """blocks of a run whose steps all end at an output time"""
    te = inp[0]
    last = n if not fail or fail > n else fail
    vals = []
    for k in range(last + 1):
        bad = fail and k == fail and fail <= n
        vals.append({4: te * k / n if not bad else t, 5: k if not bad else it, 7: 'init' if k == 0 else 'err' if bad else None})
    return vals


def full_runs(c, OLD):
    D = (4, 5)
    cases = [('run-scalar', 2, [out(clear=0, data=D, prec=9)], 0, 0), ('run-vector', 2, [out(clear=1, conv=1, data=D, meta=1, prec=9), out(0, data=D, prec=9)], 1, 0),
             ('run-both', 3, [out(clear=0, data=D, meta=1, prec=9), out(clear=0, conv=1, data=D, prec=9)], 0, 0),
             ('run-fails', 2, [out(clear=0, data=(4, 5, 7), prec=9), out(clear=0, conv=1, data=D, prec=9)], 0, 2),
             ('run-fails-first', 2, [out(clear=0, conv=1, data=D, prec=9), out(0, data=(4, 5, 7), prec=9)], 1, 1)]
    for name, n, outs, banner, fail in cases:
        def goals(inp, P, n=n, outs=outs, banner=banner, fail=fail):
            conc = not anyT(*inp)
            te = inp[0]
            gs = [OK('the run succeeds iff no step fails', okay(P) if not fail else NB(okay(P)))]
            t, it = P.out
            last = fail if fail else n
            files, left = {}, after(OLD, outs)
            gs2, std = [], 0
            txt = P.stdout.decode().split('\n')
            if banner:
                k = [i for i, x in enumerate(txt) if x.startswith('# **')]
                gs.append(OK('the banner is shown first', int(len(k) == 2 and k[0] == 0 and all(x.startswith('#') for x in txt[:k[1]]))))
                txt = txt[k[1] + 1:] if len(k) == 2 else txt
            else:
                gs.append(OK('no banner unless asked for', int(not any('Corries' in x for x in txt))))
            names = set()

            def row(o, k, cells, tag):
                gs = []
                for j, x in zip(o[10:], cells):
                    if j == 4:
                        want = te * k / n if not (fail and k == fail) else t
                        gs.append(LE('%s: time' % tag, absv(number(P, x) - want), (te if isT(te) else F(te)) * F(1, 10 ** 6) if not conc else 1e-6 * te))
                    if j == 5:
                        gs.append(OK('%s: iteration' % tag, int(x == str(min(k, last) if not fail or k < fail else int(it) if not isT(it) else '?'))))
                    if j == 7:
                        gs.append(OK('%s: kind' % tag, int((x == 'err') == bool(fail and k == fail))))
                return gs
            for o in outs:
                H = [dname(j) for j in o[10:]]
                if o[0] == STDOUT:
                    tab = txt
                elif o[2] == SCALAR:
                    f = fname(o, 0, n)
                    names.add(f)
                    tab = (P.files.get(f) or b'').decode().split('\n')
                else:
                    for k in range(last + 1):
                        f = fname(o, k, n)
                        names.add(f)
                        ls = (P.files.get(f) or b'').decode().split('\n')
                        good = len(ls) == 4 and tokens(o, ls[0]) == H and ls[3] == '' and all(len(tokens(o, x) or []) == len(H) for x in ls[1:3])
                        gs.append(OK('%s: header and two cells' % f, int(good)))
                        if good:
                            for x in ls[1:3]:
                                gs += row(o, k, tokens(o, x), f)
                    continue
                good = len(tab) == last + 3 and tab[-1] == '' and tokens(o, tab[0]) == H and all(len(tokens(o, x) or []) == len(H) for x in tab[1:-1])
                gs.append(OK('table %d: header and one row per output' % o[0], int(good)))
                if good:
                    for k, x in enumerate(tab[1:-1]):
                        gs += row(o, k, tokens(o, x), 'table %d row %d' % (o[0], k))
            metas = {metaname(o) for o in outs if o[0] == FILE and o[6]}
            for m in metas:
                gs.append(OK('%s is a JSON text' % m, int(isjson(P.files.get(m)))))
            gs.append(OK('exactly the expected files exist', int(set(P.files) == names | metas | dirs(names | metas) | set(left))))
            for k, v in left.items():
                if k not in names | metas:
                    gs.append(OK('other file %s is left alone' % k, int(P.files.get(k) == v)))
            return gs
        full_case(c, name, n, outs, banner, fail, OLD, goals)




# ------------------------------------------------------------------ C21 outputs written in parallel
def parallel(c):
    D = (4, 5)
    S_ = lambda **k: out(0, **k)
    cases = [
        ('file-file', [out(data=D, clear=0), out(data=D, clear=0, name=2)]), ('file-stdout', [out(data=D), S_(data=(4, 5, 6))]), ('stdout-file', [S_(data=(4, 5, 6)), out(data=D)]),
        ('stdout-stdout', [S_(data=D), S_(conv=1, data=(0, 10, 20))]), ('stdout-stdout-vector', [S_(conv=1, data=(4, 10, 5)), S_(conv=1, fmt=1, data=(0, 20))]),
        ('vector-scalar', [out(conv=1, data=(10, 3), clear=0), out(data=D, clear=0)]), ('folders', [out(conv=1, data=(10,), clear=0), out(folder=4, conv=1, data=(20,), clear=0)]),
        ('vector-vector', [out(conv=1, data=(10,), clear=0), out(conv=1, data=(20, 3), clear=0, name=2)]),
        ('vector-vector-formats', [out(conv=1, data=(10,), clear=0, fmt=1, name=2), out(conv=1, data=(20, 3), clear=0)]),
        ('meta-vector', [out(conv=1, data=(10,), clear=0, meta=1), out(conv=1, data=(20, 3), clear=0, name=2, meta=1)]),
        ('meta-stdout', [S_(data=D, meta=1), S_(conv=1, data=(0, 10, 20))]), ('meta-file', [out(data=D, clear=0, meta=1), out(data=D, clear=0, name=2, meta=1)]),
        ('meta-stdout-stdout', [S_(data=D, meta=1), S_(conv=1, data=(0, 10), meta=1)]),
        ('three', [S_(data=D), out(data=D), S_(conv=1, data=(0, 10, 20))]),
    ]
    if c.tier == 'thorough':
        cases += [('four', [out(data=D, clear=0), S_(data=(4,)), out(conv=1, data=(10,), clear=0, name=2), S_(conv=1, data=(0, 10, 20))]),
                  ('three-stdout', [S_(data=(4,)), S_(conv=1, data=(0, 10)), S_(data=(5, 6, 7))]),
                  ('three-files', [out(data=D, clear=0), out(data=D, clear=0, folder=4), out(conv=1, data=(11, 3), clear=0, name=2)])]
    for name, outs in cases:
        meta = int(name.startswith('meta'))
        writer_case(c, name, outs, [(0, 0), (3, 1)], meta=meta, orders=(2 + meta) * (len(outs) - 1), races=True)
    parallel_flux(c)
    c.flush()
    c.bounds.append('numerical fluxes of 8 cells, both systems, Hll and Kt: two alternating choices of the order; overlapping execution judged by what the two sides touch')
    c.bounds.append('2 and 3 outputs (thorough: 4) written twice (and their metadata once); every order of execution; overlapping execution judged by what the two sides touch: '
                    'memory, files and sections under a lock, under sequentially consistent atomics')
    c.assumptions.append('rayon splits the work as documented: every item is processed exactly once, in any order or at the same time (its source is replaced by a sequential stand-in that asks for the order)')


def parallel_flux(c):
    S = 8
    for sysname, E in (('isot', 2), ('adia', 3)):
        for k in ((0, 2) if c.tier == 'quick' else range(6)):
            entry, nout = 'vh_flux_' + sysname, S + 2 * E * S
            inp = [sym(x) for x in ['gamma', 'theta'] + ['p%d_%d' % (j, i) for j in range(E) for i in range(S)] + ['c%d' % i for i in range(S)]]
            order = [sym('order0'), sym('order1')]
            pre = [lt(1, inp[0]), lt(inp[0], 2), lt(1, inp[1])] + [lt(0, x) for x in inp[2:2 + S] + inp[2 + E * S:]]
            if E == 3:
                pre += [lt(0, x) for x in inp[2 + 2 * S:2 + 3 * S]]
            base = c.explore(entry, inp, nout, [k], pre)
            if len(base) != 1:
                raise Inconclusive('more than one path through the flux')

            def goals(x, P, entry=entry, nout=nout, k=k, base=base):
                ref = base[0].out if anyT(*x) else c.native_fast(entry, x[:-2], nout, [k]).out
                gs = [EQ('result %d does not depend on the order' % i, a, b) for i, (a, b) in enumerate(zip(P.out, ref))]
                return gs + [OK('parts computed at the same time touch nothing in common', int(not P.races))]

            def gen(rng, E=E):
                # states whose reconstruction has a positive pressure
                r = [rng.uniform(1.1, 1.9), rng.uniform(1.1, 2)] + [rng.uniform(1, 1.3) for _ in range(S)] + [rng.uniform(-.1, .1) for _ in range(S)]
                return r + [rng.uniform(1, 1.3) for _ in range((E - 2) * S + S)] + [rng.choice([0.0, 1.0]) for _ in range(2)]
            c.scenario('flux-%s-%d' % (sysname, k), entry, inp + order, nout, [k], pre, goals, gen=gen, orders=2, races=True)


# ------------------------------------------------------------------ C24 metadata
META = ['gamma', 't0', 't_end', 'dt_min', 'dt_max', 'cfl', 'atol', 'rtol', 'friction', 'theta']
DN = {0: 'XiCent', 1: 'XiWest', 2: 'XiEast', 3: 'CSound', 4: 'T', 5: 'Iter', 6: 'Dt', 7: 'DtKind'}


def meta_json(inp, flux, lim, imax, n, banner, asc, outs):
    v = dict(zip(META, inp))
    L = ['NoLimiter', 'MinMod', 'Superbee', {'Monocent': v['theta']}, 'VanLeer'][lim]
    return {
        'print_banner': bool(banner), 'mesh_config': {'mode': 'Cartesian', 'xi_in': 10.0, 'xi_out': 12.0},
        'physics_config': {'adiabatic_index': v['gamma'], 'units_mode': 'SI'},
        'boundary_condition_west': {'Custom': []}, 'boundary_condition_east': {'Custom': []},
        'numerics_config': {
            'numflux_config': {'Kt': {'limiter_mode': L}} if flux else 'Hll',
            'time_integration_config': {'Rkf': {'rkf_mode': 'SSPRK3', 'asc': bool(asc), 'asc_relative_tolerance': v['rtol'],
                                                'asc_absolute_tolerance': v['atol'], 'asc_timestep_friction': v['friction']}},
            'iter_max': imax, 't0': v['t0'], 't_end': v['t_end'], 'dt_min': v['dt_min'], 'dt_max': v['dt_max'], 'dt_cfl_param': v['cfl']},
        'output_counter_max': n,
        'writer_config': [{
            'stream_mode': ['Stdout', 'File'][o[0]], 'formatting_mode': ['CSV', 'TSV'][o[1]], 'string_conversion_mode': ['Scalar', 'Vector'][o[2]],
            'folder_name': ['', 'out', 'out/', 'out/a/b', 'other'][o[3]], 'file_name': FILES[o[4]], 'should_clear_out_folder': bool(o[5]),
            'should_print_metadata': bool(o[6]), 'should_print_ghostcells': bool(o[7]), 'precision': o[8],
            'data_names': [DN[k] if k < 10 else {('Prim', 'Cons')[k >= 20]: k % 10} for k in o[10:]]} for o in outs]}


def same_json(P, got, want, path, gs):
    """goals: the parsed text shows at least the wanted entries with the wanted values"""
    if isinstance(want, dict):
        if not isinstance(got, dict) or not set(want) <= set(got):
            gs.append(OK('%s is shown' % path, 0))
            return
        for k in want:
            same_json(P, got[k], want[k], path + '/' + k, gs)
    elif isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            gs.append(OK('%s is shown' % path, 0))
            return
        for k, (a, b) in enumerate(zip(got, want)):
            same_json(P, a, b, '%s/%d' % (path, k), gs)
    elif isT(want) or isinstance(want, float):
        if not isinstance(got, float):
            gs.append(OK('%s is a number' % path, 0))
            return
        x = number(P, repr(got))
        gs.append(EQ('%s is the value used' % path, x, want) if isT(x) or isT(want) else OK('%s is the value used' % path, int(x == want)))
    else:
        gs.append(OK('%s is the value used' % path, int(type(got) is type(want) and got == want)))


def metadata(c):
    D = (4, 5)
    VEC = (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 20, 21)
    cases = [('hll', 0, 0, 9, 2, 0, 0, [out(meta=1, data=D)]), ('monocent', 1, 3, 1000, 17, 1, 1, [out(meta=1, fmt=1, conv=1, data=VEC, ghosts=1, prec=9, folder=3)]),
             ('stdout', 1, 4, 1, 1, 0, 1, [out(0, meta=1, data=D)]),
             ('many', 1, 1, 123456, 3, 0, 0, [out(meta=1, data=D, clear=0), out(0, 1, data=(7,)), out(meta=1, conv=1, data=(10,), clear=0, name=2, prec=0)])]
    for k in (0, 2):
        cases.append(('limiter-%d' % k, 1, k, 5, 1, 1, 0, [out(meta=1, data=D, prec=17)]))
    if c.tier == 'thorough':
        cases += [('set-%d' % k, k % 2, k % 5, 3 ** k, k + 1, k % 3 == 0, k % 3 == 1, [out(1, k % 2, 1, 1 + k % 4, 1 + k % 2, k % 2, 1, k % 3 == 0, k, VEC[k:] + VEC[:k])]) for k in range(12)]
    for name, flux, lim, imax, n, banner, asc, outs in cases:
        inp = [sym(x) for x in META]

        def goals(inp, P, a=(flux, lim, imax, n, banner, asc, outs)):
            outs = a[-1]
            gs = [OK('succeeds', okay(P))]
            want = meta_json(inp, *a)
            metas = [metaname(o) for o in outs if o[0] == FILE and o[6]]
            gs.append(OK('metadata files of exactly the outputs that ask for it', int({k for k, v in P.files.items() if v is not None} == set(metas))))
            texts = [(m, P.files.get(m) or b'') for m in metas]
            std = P.stdout.decode()
            if any(o[0] == STDOUT and o[6] for o in outs):
                texts.append(('stdout', std))
            else:
                gs.append(OK('nothing on stdout', int(std == '')))
            for m, t in texts:
                gs.append(OK('%s is a JSON text' % m, int(isjson(t))))
                if isjson(t):
                    same_json(P, json.loads(t), want, m, gs)
            return gs

        def gen(rng):
            return [rng.choice([rng.uniform(0, 3), rng.uniform(0, 1) * 10.0 ** rng.randint(-30, 30), 1.0]) for _ in META]
        c.scenario('meta-' + name, 'vh_meta', inp, 1, [flux, lim, imax, n, int(banner), int(asc)] + [n] + flatouts(outs), [], goals, gen=gen, io=True, tol=1e-15, nvalid=2)
    c.flush()
    c.bounds.append('every value of the ten numeric parameters at the same time; flux schemes, limiters, outputs enumerated')


# ------------------------------------------------------------------ C25 failing file system
def faults(c):
    OLD = {'out': None, 'out/f.csv': b'old 1\nold 2\n' * 40, 'out/g.csv': b'other\n', 'out/sub': None, 'out/sub/deep.txt': b'deep', 'data.txt': b'unrelated'}
    D = (4, 5)
    cases = [('scalar', 1, [out(clear=0, data=D, meta=1)], 0), ('clear-vector', 1, [out(clear=1, conv=1, data=(5,), folder=2)], 0),
             ('nested', 1, [out(0, data=(5,)), out(clear=0, folder=3, fmt=1, data=(5,))], 0), ('two', 1, [out(clear=0, data=(5,)), out(clear=0, name=2, data=(5,))], 0),
             ('dump', 1, [out(clear=0, data=(5, 7))], 1)]
    if c.tier == 'thorough':
        cases += [('long', 3, [out(clear=1, data=D, meta=1)], 0), ('dump-vector', 2, [out(clear=0, conv=1, data=(5, 10))], 2), ('vector', 2, [out(clear=0, conv=1, data=(5, 3), meta=1, ghosts=1)], 0)]
    for name, n, outs, fail in cases:
        for kind, what in ((0, 'error'), (1, 'short'), (2, 'interrupt')):
            par = [n] + flatouts(outs) + [0, fail]
            x = [sym('t_end'), -1.0]
            pre = [lt(0, x[0]), le(F(1, 100), x[0]), le(x[0], F(10 ** 6))]
            base = c.explore('vh_full', x, 2, par, pre, setup=fs_setup(OLD), fault=kind)
            if len(base) != 1:
                raise Inconclusive('more than one path through the run')

            def goals(inp, P, n=n, outs=outs, fail=fail, kind=kind, base=base, par=par):
                B = base[0] if anyT(*inp) else c.native('vh_full', [inp[0], -1.0], 2, par, OLD, {'fault': kind})
                left = after(OLD, outs)
                mine = {k for k in B.files if B.files[k] != OLD.get(k, -1)}
                gs = [OK('files that belong to no output stay as they are', int(all(P.files.get(k, -1) == v for k, v in left.items() if k not in mine)))]
                if P.faulted and kind == 0:
                    gs.append(OK('the error is reported', NB(okay(P))))
                    ok = all(k in B.files or k in OLD for k in P.files)
                    for k in mine:
                        if k in P.files and P.files[k] is not None and B.files[k] is not None:
                            ok = ok and (B.files[k].startswith(P.files[k]) or P.files[k] == OLD.get(k, -1))
                    gs.append(OK('files hold the beginning of what should be written', int(ok)))
                    gs.append(OK('stdout shows the beginning of what should be shown', int(B.stdout.startswith(P.stdout))))
                else:
                    gs.append(OK('the run succeeds', okay(P) if not fail else NB(okay(P))))
                    gs.append(OK('everything is written', int(P.files == B.files and P.stdout == B.stdout)))
                return gs
            full_case(c, '%s-%s' % (name, what), n, outs, 0, fail, OLD, goals, kind=kind)
    c.flush()
    c.bounds.append('whole runs with 1 (thorough: up to 3) outputs in time, at most one failing operation out of all file openings for writing, writes, directory creations and removals (any of them: its number is a symbolic input); '
                    'errors, writes of one byte only, interrupted calls; end time symbolic; standard output does not fail')


CHECKS = {'C19': lifecycle, 'C20': content, 'C21': parallel, 'C24': metadata, 'C25': faults}
