''' C19 language tokens '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('the language of each of the 1114112 code points; all texts of up '
          'to 5 characters over one character of each language, unclassified '
          'ones and block boundaries; seeded random texts of up to 200')
ASSUMPTIONS = []
# Unicode blocks the code names, and the range of unclassified characters
BLOCKS = [
    (0xac00, 0xd7ff, 'ko'), (0x0000, 0x0040, None), (0x1100, 0x11ff, 'ko'),
    (0x3130, 0x318f, 'ko'), (0xa960, 0xa97f, 'ko'), (0x0041, 0x024f, 'en'),
    (0x4e00, 0x9fff, 'cn'), (0x2e80, 0x2fdf, 'cn'), (0x3400, 0x4dbf, 'cn'),
    (0xf900, 0xfaff, 'cn'), (0x3000, 0x303f, 'symbol'),
    (0x3040, 0x30ff, 'jp')]
LANGS = ('ko', 'en', 'cn', 'symbol', 'jp', 'other')


def lang_of(c):
    for a, b, l in BLOCKS:
        if a <= c <= b:
            return l
    return 'other'


def spec(c):
    ''' number of the language of code point c (a term); 0: unclassified '''
    import z3
    r = z3.IntVal(1 + LANGS.index('other'))
    for a, b, l in reversed(BLOCKS):
        r = z3.If(z3.And(c >= a, c <= b),
                  0 if l is None else 1 + LANGS.index(l), r)
    return r


@unit('C19', funcs=['hwp5.charsets.get_unichr_lang'],
      covers=['unclassified'] + list(LANGS))
def language(E):
    ''' the language of every character is that of its Unicode block '''
    from .common import fresh_int, mkseq, Lit, ti
    from hwp5 import charsets
    c = fresh_int('c', 0, 0x10ffff)
    r = charsets.get_unichr_lang(mkseq('str', [Lit((c,))]))
    if r is None:
        E.cover('unclassified')
        E.prove(spec(ti(c)) == 0, 'unclassified characters')
        return
    if r not in LANGS:
        E.fail('a known language', repr(r))
    E.cover(r)
    E.prove(spec(ti(c)) == 1 + LANGS.index(r), 'language of the block')


@unit('C19', funcs=['hwp5.charsets.tokenize_unicode_by_lang'],
      covers=['token', 'empty', 'finished', 'nothing classified'],
      notes=['get_unichr_lang by its contract, proved above'])
def tokens(E):
    ''' tokens are the consecutive parts of the text, none empty, all
    classified characters of a token have its language, neighbours differ '''
    from .common import (fresh_int, fresh_text, ti, SInt, prove_eq, V, mkint,
                         kind_of, each, segs_of)
    from pyvc.models import at_term
    from hwp5 import charsets
    import z3
    n = fresh_int('n', 0)
    text = fresh_text('text', n)
    L_ = z3.Function('language', z3.IntSort(), z3.IntSort())
    if n == 0:
        E.cover('empty')
        if [x for x in each(charsets.tokenize_unicode_by_lang(''))]:
            E.fail('no token of no text')
        return
    chars = V.characters(text)
    q = ti(fresh_int('q'))
    at = lambda i: at_term(text.segs, i)

    def get_unichr_lang(uch):
        c = ti(V.index_segs(segs_of(uch), 0))
        E.assume(z3.And(L_(c) >= 0, L_(c) <= len(LANGS)))
        for k, l in enumerate((None,) + LANGS):
            if E.branch(L_(c) == k):
                return l
    E.contracts['hwp5.charsets.get_unichr_lang'] = get_unichr_lang
    E.assume(z3.And(L_(at(q)) >= 0, L_(at(q)) <= len(LANGS)))
    G = E.G
    # at: begin of the current token; prev: language of the last one given
    G.declare(at=0, prev=0)

    def num(l):
        return 0 if l is None else 1 + LANGS.index(l)

    def inv(L):
        L.ghost('at', 0, L.pos)
        L.ghost('prev', 0, len(LANGS))
        L.fact(z3.Or(ti(L.pos) > ti(G.at),
                     z3.And(ti(L.pos) == 0, ti(G.prev) == 0)),
               'a token is begun')
        L.candidate('classified', lambda v: z3.Implies(
            z3.And(q >= ti(G.at), q < ti(L.pos)),
            z3.Or(L_(at(q)) == 0, L_(at(q)) == num(v)))
            if v is None or v in LANGS else None)
        L.candidate('differs', lambda v: z3.Or(
            ti(G.prev) == 0, z3.And(num(v) > 0, ti(G.prev) != num(v)))
            if v is None or v in LANGS else None)
        L.candidate('begun', lambda v: ti(L.pos) > ti(G.at)
                    if v in LANGS else z3.BoolVal(True))
        name = L.the(lambda v: kind_of(v) == 'list'
                     or isinstance(v, list), 'the token', 'buf')
        L.new_list(name, chars[G.at:L.pos])
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    first = True
    for lang, token in charsets.tokenize_unicode_by_lang(text):
        if lang not in LANGS:
            E.fail('a language', repr(lang))
        m = ti(V.seqlen(segs_of(token)))
        E.prove(m > 0, 'no token is empty')
        new = mkint(ti(G.at) + m)
        E.prove(ti(new) <= ti(n), 'no text is invented')
        prove_eq(E, token, text[G.at:new], 'tokens are parts of the text')
        E.prove(z3.Implies(z3.And(q >= ti(G.at), q < ti(new)),
                           z3.Or(L_(at(q)) == 0, L_(at(q)) == num(lang))),
                'classified characters have the language of their token')
        E.prove(ti(G.prev) != num(lang), 'neighbours differ')
        G.prev = mkint(z3.IntVal(num(lang)))
        G.at = new
        E.cover('token')
        if lang == 'ko':
            E.cover('nothing classified')
    prove_eq(E, G.at, n, 'no text is lost')
    E.cover('finished')


def cases(rng, tier):
    import itertools
    for a in range(0, 0x110000, 0x1000):
        yield ('block', a)
    alpha = ['가', '1', 'a', '漢', '、', 'あ', 'я', ' ', '\U0001f600', '\0',
             '\ud800']
    for n in range(0, 4 if tier == 'quick' else 6):
        for s in itertools.product(alpha, repeat=n):
            yield ('text', ''.join(s))
    edge = [chr(c + d) for a, b, l in BLOCKS for c in (a, b)
            for d in (-1, 0, 1) if 0 <= c + d < 0x110000]
    for i in range(2000 if tier == 'quick' else 50000):
        yield ('text', ''.join(rng.choice(rng.choice((alpha, edge)))
                               for k in range(rng.randrange(1, 200))))
    yield ('text', 'a1' * 100000)


def check_case(case):
    from pyvc.concrete import need
    tok, = need('hwp5.charsets', 'tokenize_unicode_by_lang'),
    if case[0] == 'block':
        for c in range(case[1], case[1] + 0x1000):
            got = list(tok(chr(c)))
            if got != [(lang_of(c) or 'ko', chr(c))]:
                return 'U+%04X gives %r' % (c, got)
        return None
    text = case[1]
    got = list(tok(text))
    if ''.join(t for l, t in got) != text:
        return 'the tokens are %r' % (got,)
    prev = None
    for l, t in got:
        if not t:
            return 'an empty token'
        if l == prev:
            return 'two tokens of %s' % l
        prev = l
        for ch in t:
            if lang_of(ord(ch)) not in (None, l):
                return '%r in a token of %s' % (ch, l)
    if len(got) == 1 and not any(lang_of(ord(c)) for c in text) \
            and got[0][0] not in LANGS:
        return 'language %r' % got[0][0]
    return None
