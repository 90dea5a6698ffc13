''' C03 top-level trees '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('all level sequences of up to 7 records with levels up to 2, '
          'seeded random ones up to 40 records, all levels, payloads of '
          'every size up to 100')
ASSUMPTIONS = [
    'lazily produced groups (group_as_list=False) are exhausted before the '
    'next one is asked for',
    'read_records is used by its contract, proved under C02',
]


def recs(E, fields=None):
    from .common import (fresh_int, fresh_list, fresh_bytes, SVal, SInt,
                         ti)
    import z3
    N = fresh_int('N', 0)
    lev = z3.Function('level', z3.IntSort(), z3.IntSort())

    def elem(i, tag):
        E.assume(lev(ti(i)) >= 0)
        d = {'seqno': i, 'level': SInt(lev(ti(i))), 'rec': SVal('rec', i),
             'tagid': fresh_int('tagid', 0, 1023),
             'size': fresh_int('size', 0, (1 << 32) - 1),
             'tagname': SVal('tagname', i, truth=True),
             'payload': fresh_bytes('payload')}
        E.born(d)
        return d
    return fresh_list(E, 'recs', N, elem), N, lev


def same_rec(E, got, want, what):
    from .common import prove_eq
    prove_eq(E, got['rec'], want['rec'], what)
    prove_eq(E, got['seqno'], want['seqno'], what)


@unit('C03', funcs=['hwp5.recordstream.group_records_by_toplevel'],
      covers=['group', 'end', 'empty stream'], max_paths=3000)
def grouping(E):
    ''' groups are non-empty, concatenate to the stream, start at level 0
    (but the first) and contain no other record of level 0 '''
    from .common import (SIter, ti, fresh_int, SList, Rope, V, mkint,
                         each, prove_eq, SInt)
    from hwp5 import recordstream
    import z3
    rs, N, lev = recs(E)
    it = SIter(rs, name='records')
    q = fresh_int('q')          # an arbitrary position
    G = E.G
    # out: records given so far
    G.declare(out=0, groups=0)

    def lookahead(L):
        return L.var(L.the(lambda v: type(v) is dict and (
            not v or list(v) == ['top']), 'the lookahead', 'context'))

    def inv(L):
        if L.loop.it is None and L.loop.collectors:
            # inside a group, the next record read already
            acc, = L.loop.collectors
            name = L.the(lambda v: v is None or isinstance(v, dict)
                         and 'level' in v, 'the next record', 'record')
            some = L.env[name] is not None
            if L.havocking:
                L.iterpos(it)
                some = bool(E.choose(2))
                L.let(name, rs[mkint(ti(it.pos) - 1)] if some else None)
                L.fact(z3.And(ti(it.pos) >= 1, ti(it.pos) <= ti(N)))
            else:
                L.handled.add(name)
                if some:
                    same_rec(E, L.env[name], rs[mkint(ti(it.pos) - 1)],
                             'the next record')
            end = mkint(ti(it.pos) - 1) if some else N
            if not some:
                L.fact(ti(it.pos) == ti(N), 'the last record')
            L.contents(acc, rs[G.out:end])
            L.fact(ti(end) >= ti(G.out) + 1)
            L.fact(z3.Implies(z3.And(ti(q) > ti(G.out), ti(q) < ti(end)),
                              lev(ti(q)) != 0),
                   'no record of level 0 inside the group')
        elif L.loop.it is None:
            # between groups
            L.ghost('out', 0, N)
            L.ghost('groups', 0)
            ctx = lookahead(L)
            if L.havocking:
                has = E.choose(2) == 0
                L.iterpos(it)
                L.havocked(ctx, 'top')
                L.havocked(ctx)
                if has:
                    E.assume(z3.And(ti(it.pos) == ti(G.out) + 1,
                                    ti(it.pos) <= ti(N), ti(G.out) >= 0))
                    ctx['top'] = rs[mkint(ti(G.out))]
                else:
                    ctx.pop('top', None)
                    E.assume(z3.And(ti(it.pos) == ti(N),
                                    ti(G.out) == ti(N)))
            elif 'top' in ctx:
                E.prove(z3.And(ti(it.pos) == ti(G.out) + 1,
                               ti(G.out) < ti(N)),
                        'one record of lookahead')
                same_rec(E, ctx['top'], rs[mkint(ti(G.out))],
                         'the lookahead is the next record')
            else:
                E.prove(z3.And(ti(it.pos) == ti(N), ti(G.out) == ti(N)),
                        'no lookahead only at the end')
            L.fact(ti(G.groups) >= 0)
            L.fact(z3.Implies(z3.And(ti(G.groups) > 0,
                                     ti(G.out) < ti(N)),
                              lev(ti(G.out)) == 0),
                   'later groups start at level 0')
            L.fact(z3.Implies(ti(G.groups) == 0, ti(G.out) == 0),
                   'the first group starts at the first record')
        else:
            # inside a group: [out, pos) collected
            acc, = L.loop.collectors
            L.contents(acc, rs[G.out:L.pos])
            L.fact(ti(L.pos) >= ti(G.out) + 1)
            L.fact(z3.Implies(z3.And(ti(q) > ti(G.out), ti(q) < ti(L.pos)),
                              lev(ti(q)) != 0),
                   'no record of level 0 inside the group')
    E.hints.append((lambda L: L.it is None or L.it is it, inv, {'peel': 0}))
    for g in recordstream.group_records_by_toplevel(it, True):
        if not isinstance(g, SList):
            E.fail('groups are lists', repr(type(g)))
        n = g.slen()
        E.prove(ti(n) > 0, 'no group is empty')
        prove_eq(E, g, rs[G.out:mkint(ti(G.out) + ti(n))],
                 'the group is the next part of the stream')
        E.prove(z3.Implies(ti(G.groups) > 0, lev(ti(G.out)) == 0),
                'a later group starts at level 0')
        E.prove(z3.Implies(z3.And(ti(q) > ti(G.out),
                                  ti(q) < ti(G.out) + ti(n)),
                           lev(ti(q)) != 0), 'one tree per group')
        G.out = mkint(ti(G.out) + ti(n))
        G.groups = mkint(ti(G.groups) + 1)
        E.cover('group')
    E.prove(ti(G.out) == ti(N), 'no record is lost')
    E.cover('end')
    if N == 0:
        E.cover('empty stream')
        E.prove(ti(G.groups) == 0, 'an empty stream has no group')


class Item(object):
    def __init__(self, token):
        self.token = token

    def open(self):
        return self.token


@unit('C03', funcs=['hwp5.recordstream.RecordStream.records_treegroup',
                    'hwp5.recordstream.RecordStream.records_treegrouped',
                    'hwp5.recordstream.RecordStream.records',
                    'hwp5.recordstream.nth'],
      covers=['treegroup', 'records', 'none'],
      notes=['group_records_by_toplevel is used by its contract'])
def selection(E):
    ''' the n-th tree is the n-th group of the stream's records '''
    from .common import (SIter, SVal, ti, fresh_int, fresh_list, prove_eq)
    from hwp5 import recordstream
    rs, N, lev = recs(E)
    token = object()
    source = []

    def read_records(f):
        if f is not token:
            E.fail('the records of this stream are read')
        r = SIter(rs, name='records')
        source.append(r)
        return r
    M = fresh_int('M', 0)
    groups = fresh_list(E, 'groups', M, lambda i, tag: SVal('group', i))

    def group(records, group_as_list=True):
        if records not in source:
            E.fail('the records of the stream are grouped')
        E.prove(ti(records.pos) == 0, 'all the records are grouped')
        if group_as_list is not True:
            E.fail('groups selected by number are lists')
        return SIter(groups, name='groups')
    E.contracts['hwp5.recordstream.read_records'] = read_records
    E.contracts['hwp5.recordstream.group_records_by_toplevel'] = group
    s = recordstream.RecordStream(Item(token), None)
    n = fresh_int('n', 0)
    which = E.choose(2)
    if which:
        r = s.records_treegroup(n)
        E.cover('treegroup')
    else:
        r = s.records(treegroup=n)
        E.cover('records')
    if r is None:
        E.prove(ti(n) >= ti(M), 'None only if there is no such tree')
        E.cover('none')
        return
    E.prove(ti(n) < ti(M), 'None if there is no such tree')
    prove_eq(E, r, SVal('group', n), 'the group with the number')


# -- cross-check --------------------------------------------------------------

def seqs(n, m):
    if n == 0:
        yield ()
        return
    for s in seqs(n - 1, m):
        for x in range(m):
            yield s + (x,)


def cases(rng, tier):
    for n in range(0, 7 if tier == 'quick' else 9):
        for s in seqs(n, 3 if n < 6 else 2):
            yield ('levels', s)
    for n in (300, 1000, 4092, 4093, 4094, 4095, 5000, 70000):
        yield ('long', n)
        yield ('big', n)
    for i in range(500 if tier == 'quick' else 20000):
        n = rng.randrange(1, 40)
        yield ('levels', tuple(rng.choice((0, 0, 1, 1, 2, 3, 1023))
                               for k in range(n)))
        if i % 5 == 0:
            yield ('sizes', tuple(rng.choice((0, 1, 2, 1 << rng.randrange(10),
                                              rng.randrange(1024)))
                                  for k in range(n)), i // 5)


class Bytes(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        import io
        return io.BytesIO(self.data)


def check_case(case):
    import io
    from pyvc.concrete import need
    group, RecordStream, dump, Record = need(
        'hwp5.recordstream', 'group_records_by_toplevel', 'RecordStream',
        'dump_record', 'Record')
    levels = case[1]
    size = 1
    if case[0] == 'long':
        levels = [0] + [i % 7 and 1 for i in range(case[1])]
        size = 0
    elif case[0] == 'big':
        levels = [0, 1, 0, 0, 1]
        size = case[1]
    want = []
    for i, lv in enumerate(levels):
        if i == 0 or lv == 0:
            want.append([])
        want[-1].append(i)
    import random
    rnd = random.Random(repr(case))
    if case[0] == 'sizes':
        size = case[2]
    recs = [Record(rnd.choice((0, 16, 66, 66, 67, 71, 1023)), lv,
                   b'' if rnd.randrange(3) == 0 else b'%d' % i + b'x' * size,
                   seqno=i)
            for i, lv in enumerate(levels)]
    got = [[r['seqno'] for r in g] for g in group(iter(recs))]
    if got != want:
        return 'groups %r' % (got,)
    got = [[r['seqno'] for r in g] for g in group(iter(recs), True)]
    if got != want:
        return 'groups %r' % (got,)
    got = [[r['seqno'] for r in g] for g in group(iter(recs), False)]
    if got != want:
        return 'lazy groups %r' % (got,)
    for g in group(iter(recs)):
        for r in g:
            if r is not recs[r['seqno']]:
                return 'a record is replaced'
    out = io.BytesIO()
    for r in recs:
        dump(out, r)
    s = RecordStream(Bytes(out.getvalue()), None)
    got = [[r['seqno'] for r in g] for g in s.records_treegrouped()]
    if got != want:
        return 'records_treegrouped %r' % (got,)
    for i, w in enumerate(want[:10]):
        got = [r['seqno'] for r in s.records_treegroup(i)]
        if got != w:
            return 'treegroup %d is %r' % (i, got)
        got = [r['seqno'] for r in s.records(treegroup=i)]
        if got != w:
            return 'records(treegroup=%d) is %r' % (i, got)
        if [(r['payload'], r['tagid'], r['level']) for r in s.records(
                treegroup=i)] != [(recs[k]['payload'], recs[k]['tagid'],
                                   recs[k]['level']) for k in w]:
            return 'payloads of treegroup %d' % i
    return None
