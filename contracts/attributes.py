''' The attributes of structures: the members present, in declared order. '''
from pyvc.unit import unit


def structures(d):
    ''' every structure of the format '''
    import importlib
    for m in ('binmodel', 'filestructure', 'xmlmodel', 'msoleprops'):
        importlib.import_module('hwp5.' + m)
    out = []
    todo = [object]
    seen = set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo.extend(type.__subclasses__(c))
        if isinstance(c, d.StructType) and c is not d.Struct and \
                c.__module__.startswith('hwp5.'):
            out.append(c)
    return sorted(out, key=lambda c: (c.__module__, c.__name__))


def declared(cls):
    ''' [[member...] for each class from the base to cls] '''
    out = []
    for c in reversed(cls.__mro__):
        if 'attributes' in c.__dict__:
            out.append([dict(type=m[0], name=m[1]) if isinstance(m, tuple)
                        else m for m in c.attributes()])
    return out


def versions(cls):
    vs = set([(5, 0, 0, 0), (5, 1, 1, 0)])
    for ms in declared(cls):
        for m in ms:
            v = m.get('version')
            if v is not None:
                vs.add(tuple(v))
                vs.add(tuple(v[:3]) + (v[3] - 1,))
                vs.add(tuple(v[:3]) + (v[3] + 1,))
    return sorted(vs)


class Answers(object):
    ''' the conditions, selectors and counts of a structure, answered as
    chosen; what they are asked with is kept '''

    def __init__(self, pattern):
        self.pattern = pattern
        self.asked = []

    def condition(self, name, values):
        self.asked.append((name, list(values.items())))
        return self.pattern(name)


def patterns(conditional):
    yield lambda n: True
    yield lambda n: False
    for c in conditional:
        yield lambda n, c=c: n != c


class Switch(object):
    answers = None


def stub(d, cls):
    ''' give the members of cls conditions, selectors and counts that are
    answered by the Switch; returns what undoes it '''
    saved = []
    switch = Switch()
    for c in cls.__mro__:
        if 'attributes' not in c.__dict__:
            continue
        saved.append((c, c.members))
        ms = []
        for m in c.members:
            m = dict(m)
            name = m['name']
            if m.get('condition') is not None:
                m['condition'] = lambda ctx, values, name=name: \
                    switch.answers.condition(name, values)
            t = m['type']
            if isinstance(t, d.X_ARRAY):
                def count(ctx, values):
                    return 2 if switch.answers.pattern(None) else 3
                count.__doc__ = 'count'
                m['type'] = d.X_ARRAY(t.itemtype, count)
            elif isinstance(t, d.SelectiveType):
                keys = sorted(t.selections, key=str)

                def select(ctx, values, keys=keys):
                    return switch.answers.select(keys)
                m['type'] = d.SelectiveType(select, t.selections)
            ms.append(m)
        c.members = ms

    def undo():
        for c, members in saved:
            c.members = members
    return switch, undo


def same_type(a, b):
    return a is b or (a.__name__, a.__module__, a.__mro__[1:]) == (
        b.__name__, b.__module__, b.__mro__[1:])


def expected(d, cls, attributes, context, answers, more):
    ''' [(name, type, value or None for a default)], and what the conditions
    are asked with '''
    attributes = dict(attributes)
    out = []
    answers.members = []
    for ms in declared(cls):
        for m in ms:
            t = m['type']
            if isinstance(t, d.X_ARRAY):
                t = d.ARRAY(t.itemtype, 2 if answers.pattern(None) else 3)
            elif isinstance(t, d.SelectiveType):
                t = t.selections[answers.select(sorted(t.selections,
                                                       key=str))]
            v = m.get('version')
            if v is not None and not context['version'] >= v:
                continue
            if m.get('condition') is not None and \
                    not answers.pattern(m['name']):
                continue
            out.append((m['name'], t, attributes.pop(m['name'], None)))
            answers.members.append(m['name'])
    for name, value in attributes.items():
        out.append((name, more, value))
    return out


def check_structure(d, cls, value, more, cover=lambda name: None):
    ''' what is wrong with the attributes of cls, for every version at which
    it changes; value(i): the i-th value '''
    typed = d.typed_struct_attributes
    names = [m['name'] for ms in declared(cls) for m in ms]
    conditional = [m['name'] for ms in declared(cls) for m in ms
                   if m.get('condition') is not None]
    selective = [m for ms in declared(cls) for m in ms
                 if isinstance(m['type'], d.SelectiveType)]
    nsel = max([len(m['type'].selections) for m in selective] or [1])
    switch, undo = stub(d, cls)
    cover('structure')
    try:
        for version in versions(cls):
            for sel in range(nsel):
                for pattern in patterns(conditional):
                    for missing in range(len(names) + 1):
                        attrs = {}
                        for i, n in enumerate(names):
                            if i != missing:
                                attrs[n] = value(i)
                        attrs['some-more'] = value(-1)
                        given = dict(attrs)
                        a = switch.answers = Answers(pattern)
                        a.select = lambda keys: keys[sel % len(keys)]
                        ctx = dict(version=version)
                        want = expected(d, cls, attrs, ctx, a, more)
                        got = [m for m in typed(cls, attrs, ctx)]
                        if len(attrs) != len(given) or any(
                                attrs[k] is not given[k] for k in given):
                            return 'the attributes given are changed'
                        if [m['name'] for m in got] != \
                                [w[0] for w in want]:
                            return '%s at %r has %r, not %r' % (
                                cls.__name__, version,
                                [m['name'] for m in got],
                                [w[0] for w in want])
                        for m, (n, t, v) in zip(got, want):
                            if not same_type(m['type'], t):
                                return '%s of %s is %r, not %r' % (
                                    n, cls.__name__, m['type'], t)
                            if v is not None:
                                if m['value'] is not v:
                                    return '%s of %s has another value' % (
                                        n, cls.__name__)
                                cover('given')
                            else:
                                if not same_type(type(m['value']), type(t())):
                                    return '%s of %s: the default' % (
                                        n, cls.__name__)
                                cover('default')
                        for name, values in a.asked:
                            k = a.members
                            vs = dict(values)
                            base = [x for ms in declared(cls)
                                    if name in [m['name'] for m in ms]
                                    for x in ms]
                            before = []
                            for x in base:
                                if x['name'] == name:
                                    break
                                if x['name'] in k:
                                    before.append(x['name'])
                            if list(vs) != before or any(
                                    vs[b] is not given.get(b, vs[b])
                                    for b in before):
                                return 'the condition of %s of %s is asked' \
                                    ' with %r' % (name, cls.__name__, vs)
                            cover('condition')
                        cover('more')
                        if len(a.members) < len(names):
                            cover('not present')
        if selective:
            cover('selected')
    finally:
        undo()
    return None


@unit('C08', funcs=['hwp5.dataio.typed_struct_attributes',
                    'hwp5.dataio.StructType.parse_members',
                    'hwp5.dataio.StructType.parse_members_with_inherited'],
      covers=['structure', 'condition', 'not present', 'given', 'default',
              'more'],
      notes=['every structure of the format, every version at which it '
             'changes, any values; conditions, selectors and counts may give '
             'any answer (all true, all false, one false); at most one member '
             'is not given'])
def typed_attributes(E):
    ''' the attributes of an element are its members in declared order, each
    with its type and value, those present in that version and under their
    conditions, then what else it is given '''
    from hwp5 import dataio as d
    from .common import SVal
    vals = {}

    def value(i):
        if i not in vals:
            vals[i] = SVal('value', i)
            vals[i]._fields['_type'] = d.UINT16
        return vals[i]
    for cls in structures(d):
        msg = check_structure(d, cls, value, d.UINT16, E.cover)
        if msg:
            E.fail(msg)
        E.prove(True, 'the attributes of %s' % cls.__name__)


def check_all():
    from pyvc.concrete import need
    d = need('hwp5.dataio')
    need('hwp5.dataio', 'typed_struct_attributes', 'StructType', 'X_ARRAY',
         'SelectiveType')
    vals = {}

    class Value(object):
        pass

    def value(i):
        return vals.setdefault(i, Value())
    for cls in structures(d):
        if not all('members' in c.__dict__ for c in cls.__mro__
                   if 'attributes' in c.__dict__):
            continue
        msg = check_structure(d, cls, value, Value)
        if msg:
            return msg
    return None
