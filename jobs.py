"""What each check runs: harness, parameters, build variant, and the situations that must have been reached."""
import json, os

ASSUME = [
    'the LLVM IR that rustc (nightly, opt-level 1, fat LTO, overflow checks and debug assertions on, panic=abort unless stated) emits for harness + /repo + std means what the engine takes it to mean; sampled paths are re-run natively and compared',
    'the reference reader, writer and type model in /verif/harness state JSON and the type rules correctly; they share no code with the crate',
    'the allocator never fails; the target is x86-64 Linux',
]


class Job:
    def __init__(self, h, *p, v='std', split=1, secs=None, steps=None, tier='quick', validate=True, note=''):
        self.h, self.p, self.v, self.split, self.secs, self.steps, self.tier, self.validate, self.note = h, p, v, split, secs, steps, tier, validate, note

    def params(self):
        return ','.join(str(x) for x in self.p)

    def text(self):
        return '%s(%s)%s%s' % (self.h, self.params(), '' if self.v == 'std' else ' in variant ' + self.v, ': ' + self.note if self.note else '')


class Spec:
    def __init__(self):
        self.jobs, self.covers, self.outside, self.assume = [], {}, [], []

    def add(self, h, *p, **k):
        self.jobs.append(Job(h, *p, **k))

    def deep(self, h, *p, **k):
        self.add(h, *p, tier='thorough', **k)

    def need(self, h, *ids):
        self.covers[h] = ids


P = {}


def prop(pid):
    P[pid] = Spec()
    return P[pid]


NTYPES = 87
SLOWSTR = {7: 8, 8: 8, 9: 8, 10: 8, 11: 8, 18: 4, 20: 3, 21: 2, 35: 8, 63: 2, 64: 2}
NROWS = 232
INTS = range(10)
FLOATY = (5, 6, 68, 69)
NF = 54


def value_docs(s, mode, v='std', full=True):
    s.add('doc_value', mode, 6, 0, v=v, note='60 templates with symbolic bytes')
    for n in range(0, 5):
        s.add('doc_value', mode, 3, n, v=v, note='every text of %d ASCII bytes without e/E' % n)
    s.add('doc_value', mode, 0, 4, v=v, note='every text of 4 ASCII bytes')
    for n in (5, 6, 7):
        s.add('doc_value', mode, 1, n, v=v, note='every text of %d bytes out of []{},:"1a and blank' % n)
    if full:
        s.add('doc_value', mode, 3, 5, v=v, split=4)
        s.add('doc_value', mode, 1, 8, v=v, split=2)
        s.deep('doc_value', mode, 0, 5, v=v, split=4)
        s.deep('doc_value', mode, 3, 6, v=v, split=8)
        s.deep('doc_value', mode, 3, 7, v=v, split=16)
        for n in (9, 10, 11):
            s.deep('doc_value', mode, 1, n, v=v, split=16)


# ---------------------------------------------------------------- C01
s = prop('C01')
value_docs(s, 0)
for t in range(NTYPES):
    if t == 6:
        continue
    s.add('ty_doc', t, 6, 0, note='36 templates for type %d' % t)
    s.add('ty_doc', t, 3, 3)
    s.deep('ty_doc', t, 3, 4)
    s.deep('ty_doc', t, 3, 5)
    s.deep('ty_doc', t, 1, 7)
s.add('ty_row', 0, 255, note='all templates for particular types')
for k in (5, 7, 8, 13, 17, 19, 20, 21, 22, 24, 33) + tuple(range(35, NF)):
    s.add('num_float', k, 0, note='template %d of nums.rs' % k)
for n in range(1, 5):
    s.add('doc_value', 0, 4, n, note='every text of %d number bytes' % n)
for t in range(65):
    if t not in SLOWSTR:
        s.add('str_doc', t, 1, 0, note='string template %d' % t)
for n in (1, 2, 3):
    s.add('str_any', n, 0)
    s.add('str_any', n, 2)
for k in range(7):
    s.add('deep_parse', k, 2, 40, 64, 1)
    s.add('deep_parse', k, 2, 40, 64, 2)
for n in (0, 1, 2):
    s.add('wide_accept', 300, n)
for k in range(14):
    s.add('long_doc', 70, k, note='long lists and maps, kind %d' % k)
for k in range(10):
    s.add('within', k)
s.need('doc_value', 1, 2, 3, 4, 5, 6, 7, 9)
s.need('ty_doc', 1, 2, 3)
s.outside = ['texts longer than the stated sizes except through the templates', 'user-defined types other than those of the table']

# ---------------------------------------------------------------- C02, C03
s = prop('C02')
value_docs(s, 1)
s.need('doc_value', 1, 2, 3, 4, 5, 6, 7, 9)
s.outside = ['documents that are neither short nor an instance of a template', 'whether an exponent overflows is decided by C06']
s = prop('C03')
value_docs(s, 2)
for k in (0, 1, 2):
    s.add('doc_kind', k, 6, 0)
    s.add('doc_kind', k, 3, 4)
    s.add('doc_kind', k, 1, 6)
    s.deep('doc_kind', k, 3, 5, split=4)
    s.deep('doc_kind', k, 1, 8, split=4)
s.need('doc_value', 1, 2, 3, 4, 5, 6, 7)
for n in (70, 300):
    for k in (5, 11):
        s.add('long_doc', n, k, note='%d elements or members' % n)
for k in (14, 15):
    s.add('long_doc', 70, k)
    s.add('long_doc', 300, k)
s.add('long_doc', 1500, 5, steps=400)
s.add('long_doc', 1500, 14, steps=400)
s.need('doc_kind', 1)
s.outside = ['documents that are neither short nor an instance of a template']

# ---------------------------------------------------------------- C04
s = prop('C04')
for k in (0, 1):
    for t in range(65):
        w = ' as a member name' if k else ''
        (s.deep if t in SLOWSTR and (k or t in (8, 10, 11, 35)) else s.add)('str_doc', t, 1, k, split=SLOWSTR.get(t, 1), note='string template %d%s' % (t, w))
    for n in (0, 1, 2, 3, 4):
        s.add('str_any', n, k, note='every literal of %d ASCII bytes%s' % (n, w))
    s.deep('str_any', 5, k, split=8)
for n in (0, 1, 2, 3, 4):
    s.add('str_any', n, 2, note='unterminated')
s.deep('str_any', 5, 2, split=4)
for t in range(8):
    s.add('str_many', t, split=4 if t == 2 else 1, note='several literals in one document, template %d' % t)
for a, b, c in ((0, 1 << 20, 70), (70, 1 << 20, 0), (7, 1 << 20, 9), (0, 70, 0), (70, 0, 70), (30, 0, 0), (8, 15, 16), (260, 3, 1), (1, 260, 1), (1000, 0, 1000)):
    s.add('str_long', a, b, c, 0, note='a long literal')
for a in (0, 5, 32, 65):
    for b in (0, 1, 3, 6, 13):
        for f in range(6):
            (s.add if f == 0 or (a, f) in ((5, 1), (32, 1), (5, 2), (5, 3), (65, 4), (0, 5)) else s.deep)('str_long', a, b, 70, f, note='a long literal, the two parts near each other')
for a in range(0, 34):
    s.deep('str_long', a, 1 << 20, 33 - a, 0)
    s.deep('str_long', a, 33 - a, 2, 0)
for f in (0, 1, 4, 13, 15):
    for k in (0, 1):
        s.add('again', f, k, 1, note='a literal after another call')
s.need('str_doc', 1, 2, 3, 4)
s.need('str_any', 1, 2, 3, 4)
s.outside = ['literals that are neither short nor an instance of a template; long ones have two symbolic bytes']

# ---------------------------------------------------------------- C05, C06, C07
s = prop('C05')
for neg in (0, 1):
    for n in range(1, 23):
        s.add('num_int', neg, n, note='%sinteger literals of %d digits' % ('negative ' if neg else '', n))
    for n in (25, 30, 39, 45):
        (s.add if n < 39 else s.deep)('num_int', neg, n)
for neg in (0, 1):
    for k in (29, 31, 32, 33, 34):
        s.add('num_float', k, neg)
for t in (0, 1):
    for neg in (0, 1):
        for n in list(range(1, 22)) + [25]:
            s.add('num_as', t, 0, neg, n, note='as a number of %s precision' % ('single' if t else 'double'))
        for h in range(1, 8):
            for n in (1, 8, 10, 19, 20):
                s.add('num_as', t, h, neg, n, note='inside something else')
s.need('num_int', 1, 2, 3)
s.need('num_as', 1)
s.outside = ['literals of more than 45 digits']
s = prop('C06')
HEAVY = (17, 18, 21, 9, 10)
for k in range(NF):
    for neg in (0, 1):
        (s.deep if (k, neg) in ((23, 1), (37, 1)) else s.add)('num_float', k, neg, note='template %d of nums.rs%s' % (k, ' with a minus' if neg else ''))
for a in (1, 2):
    for b in (0, 1, 2):
        for e, es in ((0, 0), (1, 0), (2, 1), (2, 2)):
            for neg in (0, 1):
                s.add('num_shape', a, b, e, es, neg)
for n in range(1, 6):
    s.add('doc_value', 7, 4, n, note='every text of %d number bytes' % n)
s.deep('doc_value', 7, 4, 6, split=8)
for t in (0, 1):
    for k in range(NF):
        (s.deep if k in (22, 47, 48, 49) else s.add)('num_as', t, 0, 2, k, note='as a number of %s precision, template %d' % ('single' if t else 'double', k))
    for h in range(1, 8):
        for k in (0, 5, 7, 13, 36, 41):
            s.add('num_as', t, h, 2, k, note='inside something else')
    for n in range(1, 5):
        s.add('num_as', t, 0, 3, n, note='every text of %d number bytes' % n)
s.need('num_as', 1, 2)
s.need('num_float', 3, 4)
s.outside = ['literals that are no instance of a shape or template', 'the accuracy bound is 1e-15 relative, not correct rounding']
# digits worth trying for an integer: one, the last that fits, the first that does not
HELD = {0: ((0, 1), (1, 1), (0, 19), (0, 20), (1, 19)), 1: ((1, 1), (0, 19), (1, 19), (0, 20), (1, 20)), 2: ((0, 3), (1, 1), (0, 4)), 3: ((0, 10), (1, 10), (0, 11))}


def held(s, h):
    for t in range(4):
        for neg, d in HELD[t]:
            if h in (11, 12) and (t, d) == (0, 20):  # std's own FromStr, for minutes
                continue
            s.add('num_held', t, h, neg, d, note='an integer inside something else')


s = prop('C07')
for h in range(14):
    held(s, h)
for t in INTS:
    for neg in (0, 1):
        for n in (1, 2, 3, 4, 5, 6, 10, 11, 19, 20, 21):
            s.add('num_typed', t, neg, n)
    s.add('num_typed_any', t, 4)
    s.add('num_typed_any', t, 5)
    s.deep('num_typed_any', t, 6)
    for neg in (0, 1):
        for n in (7, 8, 9, 12, 15, 18, 22, 25, 30):
            s.deep('num_typed', t, neg, n)
s.need('num_typed', 1, 2)
s.outside = ['literals of more than 30 digits']

# ---------------------------------------------------------------- typed
def typed(pid, types, rows, sizes=(3, 4), deep=(5,)):
    s = prop(pid)
    for t in types:
        s.add('ty_doc', t, 6, 0, note='36 templates for type %d' % t)
        for n in sizes:
            s.add('ty_doc', t, 3, n)
        s.add('ty_doc', t, 1, 6)
        for n in deep:
            s.deep('ty_doc', t, 3, n)
        s.deep('ty_doc', t, 1, 8)
    for a, n in rows:
        s.add('ty_row', a, n)
    s.need('ty_doc', 1, 2, 3)
    return s


s = typed('C08', [t for t in range(NTYPES) if t != 6], [(0, 255)], sizes=(2, 3), deep=(4, 5))
s.add('ty_doc', 6, 3, 2)
s = typed('C09', (8, 9, 18, 20, 21, 31, 32, 33, 48, 49, 50, 60, 27, 74, 75, 78, 80, 81), [(0, 255)])
for h in (3, 4, 5, 10):
    held(s, h)
for k in range(5):
    for n in (70, 300):
        s.add('long_out', n, k, 3, note='%d elements written' % n)
for n in (299, 300, 301, 600):
    s.add('long_doc', n, 0, note='[u8; 300], %d elements' % n)
for n in (69, 70, 71, 140):
    s.add('long_doc', n, 2, note='[Tok; 70], %d elements' % n)
for k in (1, 3, 4, 6):
    s.add('long_doc', 70, k)
    s.add('long_doc', 300, k)
s.deep('long_doc', 1100, 1)
s.deep('long_doc', 1100, 3)
s = typed('C10', (12, 24, 25, 26, 27, 37, 38, 42, 46, 50, 55, 59, 71, 72, 73, 74, 75, 77), [(0, 255)])
for h in (8, 9):
    held(s, h)
for o in (0, 1):
    s.add('wide_de', 0, o, note='70 members that must be there, %s' % ('as declared', 'backwards')[o])
    s.add('wide_de', 1, o, split=4, note='300 optional members')
for t in (0, 1, 3, 4):
    s.add('wide_out', t, 0, 3)
for k in range(6):
    s.add('skip_long', k, 70, note='a long or deep member that is ignored')
s = typed('C11', (13, 28, 36, 51, 58, 76, 78), [(0, 255)])
for t in (13, 28, 36, 51, 58, 76, 78):
    s.add('out_type', t, 2, 3)
for o in (0, 1):
    s.add('wide_de', 2, o, note='300 variants')
for p in (0, 1, 2):
    s.add('wide_out', 2, p, 3)
s = typed('C12', (10, 11, 22, 23, 29, 30, 35, 44, 45, 53, 58, 59, 79), [(0, 255)])
for h in (6, 7, 11, 12, 13):
    held(s, h)
for k in (6, 7, 8):
    for n in (70, 300):
        s.add('long_out', n, k, 3, note='%d members written' % n)
for k in range(8, 14):
    s.add('long_doc', 70, k, note='70 members, kind %d' % k)
for k in (8, 9, 12):
    s.add('long_doc', 300, k)
s = typed('C13', (14, 15, 16, 17, 18, 19, 26, 27, 36, 47, 48, 54, 58, 61, 68, 69, 70, 71, 72, 74, 77, 78, 80, 82, 83, 84, 85, 86), [(0, 255)])
for n in (70, 300):
    s.add('long_doc', n, 7)
for w in (1, 2, 3, 4):
    for f in (0, 1):
        s.add('user_de', 6, 0, f, w, note='a recording visitor in boxes and options')
        s.add('user_de', 3, 3, f, w)
for h in (0, 1, 2, 7, 8, 9, 10, 13):
    held(s, h)

NO_ROUND = (21, 80)  # Option<()>: null gives None
OUT_HEAVY = {77: 1, 10: 1, 11: 1, 24: 1, 35: 1, 39: 1, 40: 0, 44: 1, 52: 0, 53: 1, 59: 1, 54: 1, 38: 0}


def out(s, types, mode):
    for t in types:
        if t == 81:
            continue
        m = mode & ~2 if t in NO_ROUND else mode
        for n in (0, 1, 2):
            if n <= OUT_HEAVY.get(t, 2):
                s.add('out_type', t, n, m)
            else:
                s.deep('out_type', t, n, m)


out(P['C12'], (10, 11, 22, 23, 29, 30, 35, 44, 45, 53, 58, 59, 79), 3)
out(P['C13'], (14, 15, 16, 17, 18, 19, 26, 27, 36, 47, 48, 54, 58, 61, 70, 72, 77, 78, 80), 3)
s = prop('C14')
out(s, range(NTYPES), 1)
for p in range(11):
    s.add('out_unsized', p)
s.add('user_ser', 3, 3)
s.add('user_ser', 4, 3)
for k in range(5):
    s.add('user_out', k, 70, note='70 user-written values in a row or inside one another')
for k in range(10):
    for n in (70, 300):
        s.add('long_out', n, k, 1, note='%d elements, members or levels' % n)
for t in (0, 1, 3, 4):
    s.add('wide_out', t, 0, 1)
for p in (0, 1, 2):
    s.add('wide_out', 2, p, 1)
s.add('deep_value', 1, 3, 2)
s.add('deep_value', 2, 17, 20, note='texts of nested values')
s.add('deep_value', 1, 130, 200)
s.add('again_out', 1, 1)
for n in (0, 1, 2):
    s.add('wide_accept', 300, n, note='texts of long lists')
s.need('out_type', 1)
s = prop('C15')
STR = [0, 1, 2, 3, 4, 11, 12, 13, 14, 21, 31, 41, 111, 222, 333, 444, 121, 131, 141, 1234, 4321, 51, 15, 515, 5555551, 1555555, 5551555, 15551]
for k in STR:
    for p in (0, 1, 2):
        s.add('out_str', k, p, note='character classes ' + str(k))
for p in (0, 1, 2):
    s.deep('out_str', 1111, p)
    s.deep('out_str', 11211, p)
    s.deep('out_str', 13141, p)
for p in (0, 1, 2, 3):
    s.add('out_unsized', p)
LONG = ((0, 255, 1), (0, 256, 0), (256, 1, 2), (300, 16, 0), (15, 31, 63), (64, 64, 64), (0, 1030, 1))
HUGE = ((66000, 3, 0, 0), (0, 66000, 1, 0), (66000, 2, 1, 1))
for a, b, c in LONG:
    for k in (0, 1):
        s.add('long_str', a, b, c, k, note='a long string%s' % (' as a name' if k else ''))
for a in (0, 5, 32, 65):
    for b in (0, 1, 3, 6, 13):
        for k in (0, 1):
            s.add('long_str', a, b, 70, k, note='the two parts near each other')
for a, b, c, k in HUGE:
    s.add('long_str', a, b, c, k, note='longer than 16 bits count')
for a in range(1, 70, 4):
    s.deep('long_str', a, 69 - a, a // 2, 0)
s.need('out_str', 1)
s.outside = ['strings with more than three characters that may need escaping at symbolic positions (four in the thorough run)']
s = prop('C16')
for p in range(22):
    if p == 20:  # a key: std's Display
        continue
    s.add('out_int', p, 0, v='stub', validate=False, note='all values; itoa replaced by a stand-in that writes the bits')
for p in range(6):
    s.add('out_float', p, v='stub', validate=False, note='all values; ryu replaced by a stand-in that writes the bits')
for p in (0, 5):
    s.add('out_int', p, 1, note='all values, itoa itself')
s.add('out_int', 5, 2)
for p in range(22):
    s.add('out_int', p, 3, note='around powers of ten and the ends of the ranges, itoa itself')
s.add('out_float', 6, note='4096 doubles of all magnitudes, ryu itself')
s.need('out_int', 1, 2)
s.need('out_float', 1, 2)
s.assume = ['itoa and ryu (dependencies, not part of the repository) write exact and shortest decimal texts; stand-ins take their place where all values are covered']
s = prop('C17')
out(s, [t for t in range(NTYPES) if t not in FLOATY + NO_ROUND], 2)
for k in STR:
    s.add('out_str', k, 2)
for a, b, c in LONG:
    s.add('long_str', a, b, c, 0)
for k in range(10):
    for n in (70, 300):
        s.add('long_out', n, k, 2, note='%d elements, members or levels' % n)
for t in (0, 1, 3, 4):
    s.add('wide_out', t, 0, 2)
for p in (0, 1, 2):
    s.add('wide_out', 2, p, 2)
s.need('out_type', 2)

# ---------------------------------------------------------------- C18
s = prop('C18')
for k in range(7):
    for how in range(4):
        s.add('deep_parse', k, 1 if how == 3 and k else 2, 40, 64, how, note='type %d, %s' % (k, ('valid', 'any byte in the middle', 'text ends in the middle', 'any byte among the closers')[how]))
    s.deep('deep_parse', k, 3, 36, 64, 0, split=4)
    s.deep('deep_parse', k, 3, 36, 64, 2, split=4)
    s.deep('deep_parse', k, 2, 301, 300, 1, split=4, steps=200)
for how in (0, 1):
    s.add('deep_chain', 2, 40, 64, how)
s.add('deep_value', 1, 40, 64)
s.add('deep_value', 2, 40, 64)
s.add('deep_value', 1, 1000, 500, steps=100)
s.deep('deep_value', 3, 36, 64, split=8)
for n in (0, 1, 2):
    for d in (129, 300, 1100, 5000, 70000):
        s.add('deep_accept', d, n, steps=1000)
s.deep('deep_accept', 300000, 2, steps=4000, secs=800)
for n in (0, 1, 2):
    for d in (17, 257, 300):
        s.add('wide_accept', d, n)
    s.add('wide_accept', 5000 if n != 1 else 2000, n, steps=200)
    s.deep('wide_accept', 66000, n, steps=2000)
s.need('deep_parse', 1, 2)
s.need('deep_chain', 1)
s.need('deep_value', 1)
s.outside = ['depths other than the two compared in each job (36 to 1500) and the single depths accepted (up to 70000)', 'stack is counted in call frames, whose size is fixed at compile time', 'Clone and Debug of untyped values, which recurse']

# ---------------------------------------------------------------- C19
s = prop('C19')
for n in (0, 1, 2, 3, 5):
    for b in (0, 2):
        s.add('own_array', 2, n, b, note='any 2 of 22 operations on an array of %d' % n)
        s.add('own_object', 2, n, b, note='any 2 of 18 operations on an object of %d' % n)
for n in (0, 2, 3):
    s.add('own_array', 3, n, n)
    s.add('own_object', 3, n, n)
s.deep('own_array', 4, 2, 1, split=32)
s.deep('own_object', 4, 2, 1, split=32)
s.deep('own_array', 3, 6, 1)
s.deep('own_object', 3, 6, 1)
s.add('own_clone', 6, 0)
s.add('own_clone', 3, 4)
s.add('own_clone', 1, 7)
s.deep('own_clone', 1, 8)
s.deep('own_clone', 1, 9, split=8)
for n in (1, 5, 12, 25):
    s.add('own_many', n, 0)
    s.add('own_many', n, 1)
s.need('own_array', 1, 2)
s.need('own_object', 1, 2)
s.need('own_clone', 1)
s.outside = ['histories of more than three operations (four in the thorough run) and starting with more than five children']

# ---------------------------------------------------------------- C20, C21
s = prop('C20')
for f in (0, 1):
    s.add('user_de', 6, 0, f, note='22 templates' + (', one user call fails' if f else ''))
    for n in (1, 2, 3, 4):
        s.add('user_de', 3, n, f)
    for n in (5, 6, 7):
        s.add('user_de', 1, n, f)
    s.deep('user_de', 3, 5, f, split=8)
    s.deep('user_de', 1, 8, f, split=8)
    s.deep('user_de', 1, 9, f, split=16)
for w in (1, 2, 3, 4):
    for f in (0, 1):
        s.add('user_de', 6, 0, f, w, note='wrapped in boxes and options')
        s.add('user_de', 3, 4, f, w)
for k in range(6):
    for f in (0, 2):
        s.add('user_long', k, 70, f, 0, note='70 calls in a row or levels deep' + (', one call fails' if f else ''))
        s.add('user_long', k, 70, f, 4)
    s.add('user_long', k, 300, 0, 0)
    s.deep('user_long', k, 300, 2, 0)
    s.deep('user_long', k, 1100, 0, 0, steps=400)
s.need('user_de', 1, 2, 3)
s = prop('C21')
for n in (1, 2, 3, 4):
    s.add('user_ser', n, 3, note='all trees of up to %d user-written values, up to 3 per stream' % n)
s.deep('user_ser', 5, 4, split=16)
for k in range(5):
    for n in (70, 300):
        s.add('user_out', k, n, note='%d values in a row or inside one another' % n)
    s.deep('user_out', k, 1100, steps=400)
s.need('user_ser', 1, 2)

# ---------------------------------------------------------------- C22, C23, C24
NR, NNAMES, NV = 20, 9, 38
s = prop('C22')
for r in range(NR):
    for k in range(NNAMES):
        if k in (2, 8) and r in (4, 7):
            s.add('skip_member', r, k, 0, 17, note='row %d, name %d' % (r, k))
            s.deep('skip_member', r, k, 17, 99)
        else:
            s.add('skip_member', r, k, 0, 99, note='row %d, name %d; any place in the document, any of 67 value templates' % (r, k))
s.need('skip_member', 1, 2, 3)
for k in range(6):
    for n in (70, 300):
        s.add('skip_long', k, n, note='%d elements, members or levels ignored' % n)
    s.deep('skip_long', k, 2000, steps=400)
s.need('skip_long', 1, 3)
s.outside = ['documents other than the 20 with one member added; ignored values other than the 52 templates']
s = prop('C23')
for r in range(NV):
    for n in (1, 2, 3):
        s.add('blank_one', r, n, note='document %d, %d blanks in any one gap' % (r, n))
    for n in (1, 2):
        s.add('blank_all', r, n)
    for k in (0, 9, 2, 3, 4):
        s.add('blank_any', r, k, note='document %d, any one character in any place' % r)
    s.add('blank_long', r, 33)
    s.deep('blank_long', r, 70)
    s.deep('blank_long', r, 300)
    s.deep('blank_one', r, 4)
    s.deep('blank_one', r, 5)
for n in (5, 6, 7):
    s.add('doc_value', 1, 1, n, note='every text of %d bytes out of []{},:"1a and blank' % n)
s.need('blank_one', 1)
s.need('blank_all', 1)
s.need('blank_any', 1, 2, 3)
s.need('blank_long', 1, 3)
s.outside = ['documents other than the 38 of alter.rs (and the short ones)']
s = prop('C24')
CUTS = ('the text ends anywhere', 'any byte is replaced by any other', 'any byte comes in anywhere', 'a byte goes', 'a value becomes one of 14 others', 'the text ends anywhere and two bytes follow', 'the text starts again anywhere')
for r in range(NV):
    for k in range(7):
        s.add('cut_doc', r, k, note='document %d: %s' % (r, CUTS[k]))
for n in range(0, 5):
    s.add('user_de', 3, n, 0)
    s.add('user_de', 3, n, 1)
s.add('user_de', 6, 0, 0)
s.add('user_de', 6, 0, 1)
for k in range(6):
    s.add('user_long', k, 70, 0, 0)
    s.add('user_long', k, 70, 2, 0, note='a call fails somewhere in a long or deep document')
for k in (0, 3, 6):
    s.add('deep_parse', k, 2, 20, 40, 1)
    s.add('deep_parse', k, 2, 20, 40, 2)
for k in (1, 2, 3, 4, 5, 6, 8, 12):
    s.add('long_doc', 70, k, note='an error somewhere in a long list or map')
for k in (2, 3):
    s.add('long_doc', 300, k)
s.add('within', 7)
s.add('within', 8)
s.need('cut_doc', 1, 2, 3)
s.outside = ['documents other than the 38 of alter.rs and those of the recording visitor']

# ---------------------------------------------------------------- C25
s = prop('C25')
s.add('both_value', 6, 0, v='both', note='53 templates, both builds on the same text')
for n in range(0, 5):
    s.add('both_value', 3, n, v='both', note='every text of %d ASCII bytes without e/E' % n)
for n in (5, 6, 7):
    s.add('both_value', 1, n, v='both')
for n in (1, 2, 3):
    s.add('both_value', 4, n, v='both', note='every text of %d number bytes' % n)
for t in range(26):
    if t == 13:
        s.add('both_typed', t, 3, 3, v='both')
        continue
    s.add('both_typed', t, 6, 0, v='both', note='53 templates, type %d' % t)
    s.add('both_typed', t, 3, 3, v='both')
    s.deep('both_typed', t, 3, 4, v='both')
    s.deep('both_typed', t, 1, 6, v='both')
for k in (0, 1):
    s.add('both_calls', 6, 0, k, v='both', split=3)
    s.add('both_calls', 3, 4, k, v='both')
    s.deep('both_calls', 1, 7, k, v='both')
for k in range(21):
    s.add('both_text', k, v='both')
s.add('both_pair', 3, v='both')
s.deep('both_pair', 8, v='both', split=4)
s.deep('both_value', 1, 9, v='both', split=8)
s.deep('both_value', 3, 5, v='both', split=8)
s.add('doc_value', 2, 6, 0, v='nostd', note='the build without the standard library against the reference reader')
s.add('ty_row', 0, 255, v='nostd')
for t in (0, 1, 12, 26):
    s.add('str_doc', t, 1, 0, v='nostd')
s.add('deep_parse', 6, 2, 40, 64, 0, v='nostd')
s.add('own_array', 2, 2, 0, v='nostd')
s.add('own_object', 2, 2, 0, v='nostd')
for k in (0, 1, 3, 5, 8, 11, 14, 15):
    s.add('long_doc', 70, k, v='nostd')
for k in (0, 5, 6, 7, 9):
    s.add('long_out', 70, k, 3, v='nostd')
for k in range(6):
    s.add('user_long', k, 70, 0, 0, v='nostd')
    s.add('skip_long', k, 70, v='nostd')
for k in range(5):
    s.add('user_out', k, 70, v='nostd')
for a, b, c in ((0, 255, 1), (15, 31, 63)):
    for k in (0, 1):
        s.add('long_str', a, b, c, k, v='nostd')
for neg in (0, 1):
    for n in (10, 19, 20, 21):
        for t in (3, 8):
            s.add('num_typed', t, neg, n, v='nostd')
        s.add('num_int', neg, n, v='nostd')
for t in (0, 3, 5, 6, 7, 10, 17, 22):
    s.add('num_float', t, 0, v='nostd')
    s.add('num_as', 0, 0, 2, t, v='nostd')
    s.add('num_as', 1, 0, 2, t, v='nostd')
for t in range(4):
    s.add('wide_out', t, 0, 3, v='nostd')
s.add('wide_de', 0, 1, v='nostd')
s.add('wide_de', 2, 0, v='nostd')
s.add('user_de', 6, 0, 1, 0, v='nostd')
s.add('user_ser', 3, 3, v='nostd')
for r in (0, 4, 9, 15):
    s.add('cut_doc', r, 0, v='nostd')
    s.add('blank_one', r, 1, v='nostd')
s.need('both_value', 1)
s.need('both_typed', 1, 2)
s.need('both_calls', 1)
s.outside = ['hashed maps and the Error trait of the standard library, which the smaller build does not have', 'texts that are neither short nor an instance of a template']
s.assume = ['itoa and ryu are replaced by stand-ins writing the bits in both builds alike']

# ---------------------------------------------------------------- C26
s = prop('C26')
NDOCS = 15
for t in range(21):
    for d in range(NDOCS):
        s.add('unw_de', t, d, 0, 60, 0, v='unwind', note='type %d, document %d, any one of the first 60 user calls panics' % (t, d))
        s.add('unw_de', t, d, 0, 40, 16, v='unwind', note='and any one of 16 fails before')
        s.add('unw_de', t, d, 1, 60, 0, v='unwind', note='filling a slot of the caller by hand')
        s.deep('unw_de', t, d, 0, 120, 60, v='unwind')
        s.deep('unw_de', t, d, 1, 120, 40, v='unwind')
for n in (1, 2, 3, 4):
    s.add('unw_ser', n, 3, 0, 30, v='unwind')
s.add('unw_ser', 5, 3, 0, 40, v='unwind', split=4)
s.deep('unw_ser', 6, 3, 0, 50, v='unwind', split=16)
for k in range(9):
    for n in (0, 1, 2, 3, 5):
        s.add('unw_own', k, n, 0, 20, v='unwind')
s.need('unw_de', 1, 2, 3)
s.need('unw_ser', 1, 2, 3)
s.need('unw_own', 2, 3)
s.outside = ['more than one panic in a call (a second one during unwinding aborts)', 'types and documents other than those of unw.rs']

# ---------------------------------------------------------------- C27
s = prop('C27')
for f in range(18):
    for w in range(4):
        s.add('again', f, w, 0, note='after a call of any outcome, text %d' % f)
    s.add('again', f, 1, 1)
    s.add('again', f, 1, 2)
s.add('again_out', 1, 1, note='two values written, then the first again')
s.add('again_out', 0, 1)
for k in range(10):
    s.add('within', k, note='calls from within visitors, names, destructors and values written')
s.add('unw_again', 0, 0, 0, 40, 0, v='unwind', note='after a panic in reading')
s.add('unw_again', 0, 0, 0, 0, 30, v='unwind')
s.add('unw_again', 0, 0, 0, 30, 20, v='unwind')
s.add('unw_again', 1, 0, 0, 6, 0, v='unwind', note='after a panic in writing')
for f in (0, 1, 3, 5, 13):
    s.add('again', f, 0, 0, v='nostd')
s.need('again', 1, 2)
for k in range(4):
    for t in range(4):
        s.add('again_many', 300, k, t, note='after 300 calls')
    s.add('again_many', 300000 if k < 2 else 70000, k, 0, steps=3000, note='after very many')
for k in range(8):
    for t in range((18, 18, 7, 7, 7, 1, 1, 6)[k]):
        s.add('again_place', k, t, note='what lies at one place changed between the calls')
s.need('again_place', 1, 2)
s.need('again_many', 1, 2)
s.need('within', 1, 2, 3)
s.need('unw_again', 1, 2, 3, 4)
s.outside = ['histories of more than three calls with symbolic input', 'texts other than the templates of long.rs']

# ---------------------------------------------------------------- C28
s = prop('C28')
s.add('beside_self', note='the interleaving itself')
KINDS = [(0, 24), (1, 24), (2, 3), (3, 2), (4, 2), (5, 7), (6, 7), (7, 2), (8, 3)]
for k, n in KINDS:
    for t in range(n):
        s.add('beside_same', k, t, 1, note='two threads doing the same with the same, after a call')
        s.add('beside_same', k, t, 0, note='two threads doing the same with the same')
        # and each with one of every other kind
        for i, (k2, n2) in enumerate(KINDS):
            s.add('beside', k, t, k2, (t * 5 + i) % n2, 1 - (t + i) % 2, note='two threads')
for k, n in KINDS:
    s.add('beside', k, 0, k, n - 1, 1, v='nostd')
    for t in range(n):
        for k2, n2 in KINDS:
            for t2 in range(n2):
                s.add('beside', k, t, k2, t2, (t + t2) % 2, tier='thorough')
s.need('beside_self', 1, 2)
s.need('beside', 1, 2, 9)
s.need('beside_same', 1, 2, 9)
s.outside = ['more than one switch away from a thread and back', 'more than two threads', 'reordering of memory accesses by the processor', 'user code that itself shares memory between threads']

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known-findings.txt')


def known(pid):
    """Lines of JSON: property, harness, params, input (hex), what. Lines "fixed: ..." suppress nothing."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('{'):
                d = json.loads(l)
                if d['property'] == pid:
                    r.append(d)
    return r


def is_known(ks, job, bug):
    h = ''.join(i[1] for i in bug['inputs'])
    return any(k.get('harness') == job.h and k.get('params') == job.params() and k.get('input') == h for k in ks)
