''' C26: the models of a stream (parse_models by its contract) '''
from pyvc.core import Unsupported
from pyvc.unit import unit


def a_stream(E, path=True):
    from .common import SVal
    from hwp5 import binmodel

    class Stream(binmodel.ModelStream):
        version = SVal('version', 0, truth=True)

        def __init__(self):
            self.wrapped = object()
            if path:
                self.path = SVal('path', 0, truth=True)
    return Stream()


@unit('C26', funcs=['hwp5.binmodel.ModelStream.models_treegrouped'],
      covers=['group', 'finished', 'version given', 'version of the stream'],
      notes=['records_treegrouped by its contract (C03), parse_models by its '
             'contract'])
def groups(E):
    ''' the models of every group of records, in order, numbered '''
    from .common import (SVal, SIter, Rope, View, Base, V, ti, mkint,
                         prove_eq, fresh_int, each)
    n = fresh_int('n', 0)
    b = Base('groups', 'list', ti(n), lambda i: SVal('records', i))
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='groups')
    s = a_stream(E)
    s.records_treegrouped = lambda *a, **k: it
    given = E.choose(2)
    kw = {'other': SVal('other', 0)}
    if given:
        kw['version'] = SVal('version given', 0, truth=True)
    want = kw.get('version', s.version)
    E.cover('version given' if given else 'version of the stream')
    G = E.G
    G.declare(k=0)

    def parse(context, records):
        i = ti(G.k)
        prove_eq(E, records, SVal('records', mkint(i)),
                 'the records of the group')
        prove_eq(E, context['treegroup'], mkint(i), 'the number of the group')
        E.prove(context['version'] is want, 'the version')
        E.prove(context['other'] is kw['other'], 'the context')
        return SVal('models', mkint(i))
    E.contracts['hwp5.binmodel.parse_models'] = parse

    def inv(L):
        L.ghostlet('k', L.pos)
        for v in list(L.env.values()):
            if type(v) is dict and 'treegroup' in v:
                L.item(v, 'treegroup', mkint(ti(L.pos) - 1))
    E.hints.append((lambda L: True, inv, {'peel': 1}))
    for got in each(s.models_treegrouped(**dict(kw))):
        prove_eq(E, got, SVal('models', G.k), 'its models')
        G.k = G.k + 1
        E.cover('group')
    prove_eq(E, G.k, n, 'all the groups')
    E.cover('finished')


@unit('C26', funcs=['hwp5.binmodel.chain_iterables'],
      covers=['item', 'finished'])
def chained(E):
    ''' the items of all the iterables, in order '''
    from .common import (SVal, SIter, Rope, View, Base, V, ti, mkint,
                         prove_eq, fresh_int, fresh_list)
    from hwp5 import binmodel
    import z3
    I = z3.IntSort()
    n = fresh_int('n', 0)
    cnt = z3.Function('count', I, I)
    made = {}
    G = E.G
    G.declare(k=0, j=0)

    def group(i):
        E.assume(cnt(ti(i)) >= 0)
        made['inner'] = SIter(fresh_list(
            E, 'inner', mkint(cnt(ti(i))),
            lambda j, t: SVal('item', j, of=i)), name='inner')
        return made['inner']
    b = Base('groups', 'list', ti(n), group)
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='groups')

    def inv(L):
        if L.it is made.get('inner'):
            L.ghostlet('j', L.pos)
            return
        if L.mode == 'check':
            k = ti(L.pos) - 1
            prove_eq(E, G.j, mkint(cnt(k)), 'all items of the iterable')
            prove_eq(E, G.k, mkint(k), 'in order')
            G.k = mkint(k + 1)
            G.j = 0
        L.ghostlet('k', L.pos)
        L.ghostlet('j', 0)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for got in binmodel.chain_iterables(it):
        prove_eq(E, got, SVal('item', G.j), 'the next item')
        prove_eq(E, got.of, G.k, 'of this iterable')
        G.j = G.j + 1
        E.cover('item')
    prove_eq(E, G.k, n, 'all the iterables')
    E.cover('finished')


@unit('C26', funcs=['hwp5.binmodel.ModelStream.models',
                    'hwp5.binmodel.ModelStream.model'],
      covers=['all', 'one group', 'one model', 'no model'],
      notes=['models_treegrouped and chain_iterables by their contracts'])
def stream_models(E):
    ''' the models of all groups one after the other, or those of the group
    asked for; a model by its number '''
    from .common import (SVal, SIter, Rope, View, Base, V, ti, mkint,
                         prove_eq, fresh_int, fresh_list)
    path = E.choose(2)
    s = a_stream(E, path)
    kw = {'other': SVal('other', 0)}
    given = E.choose(2)
    if given:
        kw['version'] = SVal('version given', 0, truth=True)
    want = kw.get('version', s.version)

    def context(c):
        E.prove(c['version'] is want, 'the version')
        E.prove(c['other'] is kw['other'], 'the context')
    group = [None, fresh_int('group', 0)][E.choose(2)]
    if group is not None:
        kw['treegroup'] = group
    out = SVal('models', 0, truth=True)
    groups = SVal('groups', 0, truth=True)

    def treegrouped(self, **kw):
        context(kw)
        return groups

    def chain(it):
        E.prove(it is groups and group is None, 'all the groups')
        return out

    def parse(c, records):
        context(c)
        E.prove(group is not None, 'one group')
        prove_eq(E, c['treegroup'], group, 'the number of the group')
        prove_eq(E, records, SVal('group', group), 'its records')
        return out
    E.contracts['hwp5.binmodel.ModelStream.models_treegrouped'] = treegrouped
    E.contracts['hwp5.binmodel.chain_iterables'] = chain
    E.contracts['hwp5.binmodel.parse_models'] = parse
    E.contracts['hwp5.recordstream.RecordStream.records_treegroup'] = \
        lambda self, n: SVal('group', n)
    got = s.models(**dict(kw))
    E.prove(got is out, 'the models')
    E.cover('all' if group is None else 'one group')
    # by number
    n = fresh_int('n', 0)
    it = SIter(fresh_list(E, 'all', n, lambda i, t: SVal('model', i)))
    E.contracts['hwp5.binmodel.ModelStream.models'] = lambda self, **k: it
    idx = fresh_int('idx', 0)
    got = s.model(idx)
    if E.branch(ti(idx) < ti(n)):
        prove_eq(E, got, SVal('model', idx), 'the model with the number')
        E.cover('one model')
    else:
        E.prove(got is None, 'no model with this number')
        E.cover('no model')


@unit('C26', funcs=['hwp5.binmodel.resolve_models'],
      covers=['top', 'child', 'finished'],
      notes=['prefix_ancestors_from_level by its contract (C04), '
             'resolve_model_events by its contract'])
def models_events(E):
    ''' every record, in order, is one start, the events of its members and
    one end; it knows the model one level up that precedes it '''
    import z3
    from .common import (SVal, SIter, SInt, Rope, V, ti, mkint, prove_eq,
                         fresh_int, fresh_list, each, segs_of)
    from pyvc.values import Lit
    from hwp5 import binmodel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    n = fresh_int('n', 0)
    G = E.G
    G.declare(k=0, t=0)
    depth = z3.Function(E.fresh('depth'), z3.IntSort(), z3.IntSort())
    anc = z3.Function(E.fresh('ancestor'), z3.IntSort(), z3.IntSort(),
                      z3.IntSort())
    count = z3.Function(E.fresh('count'), z3.IntSort(), z3.IntSort())
    base = {'version': SVal('version', 0), 'treegroup': 3}

    def record(i, tag):
        return E.born(dict((k, SVal(k, i)) for k in (
            'level', 'tagname', 'tagid', 'payload', 'seqno')))
    records = fresh_list(E, 'records', n, record)
    root = []

    def is_record(r, i):
        if not isinstance(r, dict):
            E.fail('a record')
        for k in ('level', 'tagname', 'tagid', 'payload', 'seqno'):
            prove_eq(E, r[k], SVal(k, i), 'the record of its place')

    def is_context(c, i):
        if not isinstance(c, dict):
            E.fail('a context')
        is_record(c.get('record'), i)
        is_record(c.get('model'), i)
        E.prove(c['model'] is not c['record'], 'a model of its own')
        E.prove(c is not base and c.get('version') is base['version']
                and c.get('treegroup') == 3, 'a context of its own')

    def ancestors(prefixed, root_item=None):
        E.prove(isinstance(root_item, dict) and not root_item,
                'nothing is known above the top')
        root.append(root_item)
        if not isinstance(prefixed, SIter):
            raise Unsupported('items with levels')
        segs = prefixed.segs()
        E.prove(ti(prefixed.n()) == ti(n), 'every record')

        def at(i):
            x = V.wrap_item('list', V.index_segs(segs, mkint(ti(i))))
            if not isinstance(x, tuple) or len(x) != 2:
                E.fail('level and item')
            prove_eq(E, x[0], SVal('level', i), 'level of the record')
            is_context(x[1], i)
            return x[1]

        def elem(i, tag):
            d = depth(ti(i))
            E.assume(z3.And(d >= 0, d <= ti(i)))

            def up(j, tag):
                a = anc(ti(i), ti(j))
                E.assume(z3.And(a >= 0, a < ti(i)))
                return at(SInt(a))
            above = fresh_list(E, 'ancestors', mkint(d), up)
            return V.elemtuple('ancestry', i, (
                Rope('list', V.normal([Lit((root_item,))]
                                      + list(segs_of(above)))), at(i)))
        it = SIter(fresh_list(E, 'ancestry', n, elem), name='ancestry')
        it.role = 'records'
        return it
    E.contracts['hwp5.treeop.prefix_ancestors_from_level'] = ancestors

    def members(context, model):
        is_context(context, G.k)
        E.prove(model is context['model'], 'the model of the record')
        E.assume(count(ti(G.k)) >= 1)
        k = G.k
        it = SIter(fresh_list(
            E, 'members', mkint(count(ti(k))), lambda i, tag: V.elemtuple(
                'member', i, (SVal('ev', i), SVal('member item', i)))),
            name='members')
        it.role = 'members'
        return it
    E.contracts['hwp5.binmodel.resolve_model_events'] = members

    def outer(L):
        L.ghostlet('k', L.pos)
        L.ghostlet('t', 0)

    def inner(L):
        L.ghostlet('t', L.pos)
    role = lambda L: getattr(L.it, 'role', None)
    E.hints.append((lambda L: role(L) == 'records', outer, {'peel': 0}))
    E.hints.append((lambda L: role(L) == 'members', inner, {}))
    at = [None]
    for ev, item in each(binmodel.resolve_models(base, records)):
        if isinstance(ev, SVal):
            E.prove(at[0] is not None, 'inside its record')
            prove_eq(E, ev, SVal('ev', G.t), 'the events of its members')
            prove_eq(E, item, SVal('member item', G.t), 'in order')
            G.t = G.t + 1
            continue
        is_context(item, G.k)
        E.prove(item.get('type') is binmodel.RecordModel, 'a record')
        prove_eq(E, item.get('name'), SVal('tagname', G.k), 'its name')
        if ev is STARTEVENT:
            E.prove(at[0] is None, 'one after another')
            at[0] = item
            up = item.get('parent')
            if not isinstance(up, tuple) or len(up) != 2:
                E.fail('the parent is known')
            d = depth(ti(G.k))
            if E.branch(d > 0):
                above = SInt(anc(ti(G.k), d - 1))
                is_context(up[0], above)
                E.prove(up[1] is up[0]['model'], 'the model of the parent')
                E.cover('child')
            else:
                E.prove(up[0] is root[0] and up[1] == {},
                        'nothing above the top')
                E.cover('top')
            continue
        E.prove(ev is ENDEVENT and at[0] is item, 'its end')
        prove_eq(E, G.t, mkint(count(ti(G.k))), 'with all of its members')
        prove_eq(E, item.get('value'), SVal('member item', G.t - 1),
                 'its value')
        at[0] = None
        G.k = G.k + 1
        G.t = 0
    prove_eq(E, G.k, n, 'every record')
    E.prove(sorted(base) == ['treegroup', 'version'], 'the context is left')
    E.cover('finished')


@unit('C26', funcs=['hwp5.binmodel.ModelStream.parse_model_events'],
      covers=['start', 'end', 'other', 'finished'],
      notes=['records_treegrouped by its contract (C03), resolve_models and '
             'resolve_values_from_stream by their contracts'])
def stream_model_events(E):
    ''' the events of every group, in order, as they are; a record is read
    from its own payload, and what is left of it is told at its end '''
    import z3
    from .common import (SVal, SIter, Rope, View, Base, V, ti, mkint,
                         prove_eq, fresh_int, fresh_list, each, fresh_bytes,
                         SFile)
    from hwp5 import binmodel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    n = fresh_int('groups', 0)
    b = Base('groups', 'list', ti(n), lambda i: SVal('records', i))
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='groups')
    s = a_stream(E)
    s.records_treegrouped = lambda *a, **k: it
    G = E.G
    G.declare(g=0, t=0)
    count = z3.Function(E.fresh('count'), z3.IntSort(), z3.IntSort())
    made = {}

    class Reader(object):
        def __init__(self, stream):
            self.stream = stream
    E.contracts['hwp5.bintype.resolve_values_from_stream'] = Reader

    def resolve(context, records):
        g = G.g
        prove_eq(E, records, SVal('records', g), 'the records of the group')
        prove_eq(E, context['treegroup'], g, 'the number of the group')
        E.prove(context['version'] is s.version
                and sorted(context) == ['treegroup', 'version'],
                'the version of the stream')
        E.assume(count(ti(g)) >= 0)
        G.g = g + 1
        G.t = 0

        def elem(i, tag):
            kind = ('start', 'end', 'other', 'other end')[E.choose(4)]
            size = fresh_int('size', 0)
            payload = fresh_bytes('payload', size)
            item = E.born({'type': binmodel.RecordModel,
                           'record': {'payload': payload}, 'i': i,
                           'kind': kind, 'payload': payload})
            ev = {'start': STARTEVENT, 'end': ENDEVENT,
                  'other': None, 'other end': ENDEVENT}[kind]
            if kind.startswith('other'):
                item['type'] = binmodel.CharShape
            if kind == 'end':
                used = fresh_int('used', 0)
                E.assume(ti(used) <= ti(size))
                f = SFile(payload)
                f.seek(used)
                item['stream'] = f
                item['used'] = used
            return V.elemtuple(('ev', tag), i, (ev, item))
        got = SIter(fresh_list(E, 'events', mkint(count(ti(g))), elem),
                    name='events')
        got.role = 'events'
        return got
    E.contracts['hwp5.binmodel.resolve_models'] = resolve

    def outer(L):
        L.ghostlet('g', L.pos)
        L.ghost_havoc.add('t')
        for v in list(L.env.values()):
            if type(v) is dict and 'treegroup' in v:
                L.item(v, 'treegroup', mkint(ti(L.pos) - 1))

    def inner(L):
        L.ghostlet('t', L.pos)
    role = lambda L: getattr(L.it, 'role', None)
    E.hints.append((lambda L: role(L) != 'events', outer, {'peel': 1}))
    E.hints.append((lambda L: role(L) == 'events', inner, {'peel': 0}))

    for pair in each(s.parse_model_events()):
        if not isinstance(pair, tuple) or len(pair) != 2:
            E.fail('an event')
        ev, item = pair
        prove_eq(E, item['i'], G.t, 'the events in order')
        kind = item['kind']
        if kind == 'start':
            f = item.get('stream')
            E.prove(ev is STARTEVENT and isinstance(f, SFile),
                    'a stream of the record')
            prove_eq(E, f.tell(), 0, 'at its start')
            prove_eq(E, f.getvalue(), item['payload'], 'of its payload')
            r = item.get('resolve_values')
            E.prove(isinstance(r, Reader) and r.stream is f,
                    'the members are read from it')
        elif kind == 'end':
            left = item.get('leftover')
            E.prove(isinstance(left, dict) and
                    sorted(left) == ['bytes', 'offset'], 'the leftover')
            prove_eq(E, left['offset'], item['used'], 'its offset')
            prove_eq(E, left['bytes'], item['payload'][item['used']:],
                     'the rest of the payload')
        else:
            E.prove('leftover' not in item and 'stream' not in item,
                    'other events are left')
        E.cover(kind.split()[0])
        G.t = G.t + 1
        E.prove(ti(G.t) <= count(ti(G.g - 1)), 'of its group')
    prove_eq(E, G.g, n, 'every group')
    E.cover('finished')
