''' C07: the events of the whole document (its parts by their contracts) '''
from pyvc.core import Unsupported
from pyvc.unit import unit


def stream_of(events):
    from .common import SIter, Rope, V
    from pyvc.values import Lit
    if isinstance(events, SIter):
        return events
    if isinstance(events, (list, tuple)):
        return SIter(Rope('list', [Lit(list(events))]))
    return SIter(Rope('list', list(V.segs_of(events))))


def wrapped_by_contract(E):
    ''' wrap_modelevents by its contract: start, the events, end '''
    from .common import SIter, Rope, V
    from pyvc.values import Lit
    from hwp5.treeop import STARTEVENT, ENDEVENT

    def wrap(model, events):
        return SIter(Rope('list', V.normal(
            [Lit([(STARTEVENT, model)])] + list(stream_of(events).segs())
            + [Lit([(ENDEVENT, model)])])), name='wrapped')
    E.contracts['hwp5.xmlmodel.wrap_modelevents'] = wrap


def wraps(E, got, name, content, inner):
    ''' got is an element of the name around the inner events '''
    from .common import SIter, Rope, V, prove_eq, mkint, ti
    from hwp5.treeop import STARTEVENT, ENDEVENT
    if not isinstance(got, SIter):
        raise Unsupported('not a stream: %r' % (got,))
    segs = list(got.segs())
    n = ti(got.n())
    prove_eq(E, mkint(n), mkint(ti(SIter(Rope('list', list(inner))).n()) + 2),
             'the events of the parts, within one element')
    first = V.index_segs(segs, 0)
    last = V.index_segs(segs, mkint(n - 1))
    E.prove(first[0] is STARTEVENT and last[0] is ENDEVENT
            and first[1][0] is last[1][0], 'within one element')
    E.prove(first[1][0].__name__ == name, 'the name of the element')
    if content is not None:
        E.prove(set(first[1][1]) == set(content), 'attributes of the element')
        for k, v in content.items():
            prove_eq(E, first[1][1][k], v, k)
    prove_eq(E, Rope('list', V.slice_segs(segs, slice(1, mkint(n - 1)))),
             Rope('list', list(inner)), 'the events of the parts, in order')


class Part(object):
    ''' something with events '''

    def __init__(self, E, name, check=None):
        from .common import SVal, fresh_int, fresh_list
        self.rope = fresh_list(E, name, fresh_int('n_' + name, 0),
                               lambda i, t: SVal(name, i))
        self.check = check
        self.given = 0

    def events(self, **kw):
        from .common import SIter, Rope
        if self.check:
            self.check(kw)
        self.given += 1
        return SIter(Rope('list', list(self.rope.segs)), name='part')


@unit('C07', funcs=['hwp5.xmlmodel.Hwp5File.events',
                    'hwp5.xmlmodel.DocInfo.events'],
      covers=['embedded', 'not embedded', 'document information'],
      notes=['wrap_modelevents by its contract; embed_bindata by its '
             'contract (C20), give_elements_unique_id by its (C10)'])
def document(E):
    ''' the document is one element around the summary, the document
    information and the text, in this order; stored data is embedded only if
    it is asked for and there is some '''
    from .common import SVal, SIter, Rope
    from hwp5 import xmlmodel as x
    wrapped_by_contract(E)
    version = (5, 0, 3, 4)
    stored = SVal('BinData', 0, truth=True)
    if E.choose(2):
        embed, has = [(None, 1), (False, 1), (True, 0), (True, 1)][E.choose(4)]
        kw = {'other': SVal('other', 0)}
        if embed is not None:
            kw['embedbin'] = embed

        def check(got):
            want = {'other'}
            if embed and has:
                want.add('embedbin')
                E.prove('embedbin' in got and got['embedbin'] is stored,
                        'the stored data')
                E.cover('embedded')
            else:
                E.cover('not embedded')
            E.prove(set(got) == want and got['other'] is kw['other'],
                    'the context of the parts')
        parts = [Part(E, n, check) for n in ('summary', 'docinfo', 'text')]

        class File(x.Hwp5File):
            def __init__(self):
                pass

            summaryinfo, docinfo, text = parts

            class header(object):
                pass
            header.version = version
            fileheader = header

            def __contains__(self, name):
                return name == 'BinData' and bool(has)

            def __getitem__(self, name):
                if name == 'BinData' and has:
                    return stored
                raise KeyError(name)
        box = {}

        def numbered(events):
            box['of'] = events
            return SIter(Rope('list', list(events.segs())), name='numbered')
        E.contracts['hwp5.xmlmodel.give_elements_unique_id'] = numbered
        got = x.Hwp5File.events(File(), **dict(kw))
        wraps(E, got, 'HwpDoc', {'version': version},
              [s for p in parts for s in p.rope.segs])
        E.prove('of' in box and got.name == 'numbered',
                'the elements are numbered')
        E.prove(all(p.given == 1 for p in parts), 'each part once')
        return
    embed = E.choose(2)
    kw = {'other': SVal('other', 0)}
    if embed:
        kw['embedbin'] = stored

    def check(got):
        E.prove(got.get('other') is kw['other'], 'the context')
    part = Part(E, 'models', check)
    after = Part(E, 'embedded')

    class Info(x.DocInfo):
        def __init__(self):
            pass

        modelevents = part.events

    def embedding(events, stg):
        from .common import prove_eq
        E.prove(bool(embed) and stg is stored, 'the stored data')
        prove_eq(E, Rope('list', list(events.segs())), part.rope,
                 'into the events of the document information')
        return after.events()
    E.contracts['hwp5.xmlmodel.embed_bindata'] = embedding
    got = x.DocInfo.events(Info(), **dict(kw))
    wraps(E, got, 'DocInfo', {}, (after if embed else part).rope.segs)
    E.cover('document information')


@unit('C07', funcs=['hwp5.xmlmodel.Section.events'], covers=['section'],
      notes=['every stage by its contract (the other units)'])
def stages(E):
    ''' the events of a section go through every stage, those each of them
    relies on before it '''
    from .common import SVal
    from hwp5 import xmlmodel as x
    ctx = {'other': SVal('other', 0)}
    idx = SVal('idx', 0, truth='any')
    has = E.choose(2)
    if has:
        ctx['section_idx'] = idx

    class Stage(object):
        def __init__(self, *done):
            self.done = done

    class Sec(x.Section):
        def __init__(self):
            pass

        def modelevents(self, **kw):
            E.prove(kw.get('other') is ctx['other'], 'the context')
            return Stage()
    # what each relies on
    needs = {
        'make_texts_linesegmented_and_charshaped': (),
        'make_extended_controls_inline': (
            'make_texts_linesegmented_and_charshaped',),
        'match_field_start_end': ('make_extended_controls_inline',),
        'make_paragraphs_children_of_listheader': (),
        'cells': (),
        'restructure_tablebody': ('cells',),
        'tokenize_text_by_lang': (
            'make_texts_linesegmented_and_charshaped',),
        'wrap_section': (),
        'wrap_columns': ('wrap_section', 'make_extended_controls_inline'),
    }

    def stage(name):
        def f(events, *a, **k):
            n = name
            v = list(a) + list(k.values())
            if name == 'make_paragraphs_children_of_listheader':
                if v and v != [x.ListHeader, x.Paragraph] \
                        and v[0] is not x.ListHeader:
                    E.prove(v == [x.TableBody, x.TableCell],
                            'the cells of a table')
                    n = 'cells'
            elif name == 'wrap_section':
                E.prove(v == [idx] if has else v in ([], [None]),
                        'the number of the section')
            else:
                E.prove(not v, 'the events of the section')
            E.prove(n not in events.done, 'every stage once')
            E.prove(all(b in events.done for b in needs[n]),
                    'what the stage relies on is done before: ' + n)
            return Stage(*(events.done + (n,)))
        return f
    for name in needs:
        if name != 'cells':
            E.contracts['hwp5.xmlmodel.' + name] = stage(name)
    got = x.Section.events(Sec(), **ctx)
    E.prove(set(got.done) == set(needs), 'every stage')
    E.cover('section')


@unit('C07', funcs=['hwp5.xmlmodel.Sections.events'],
      covers=['sections'],
      notes=['Sections.section_indexes by its contract (C23), '
             'wrap_modelevents by its contract'])
def all_sections(E):
    ''' the text is one element around the events of all its sections in
    order, each knowing its number '''
    from .common import (SVal, SIter, Rope, View, Base, V, ti, mkint, prove_eq,
                         fresh_int)
    from pyvc.hooks import Spread
    from hwp5 import xmlmodel as x
    import itertools
    import z3
    wrapped_by_contract(E)
    n = fresh_int('n', 0)
    idx = z3.Function('index', z3.IntSort(), z3.IntSort())
    indexes = Base('indexes', 'list', ti(n),
                   lambda i: mkint(idx(ti(i))))
    it = SIter(Rope('list', [View(indexes, 0, ti(n))]), name='indexes')
    other = SVal('other', 0)

    class Section(object):
        def __init__(self, i):
            self.i = i

        def events(self, **kw):
            E.prove(set(kw) == {'other', 'section_idx'}
                    and kw['other'] is other, 'the context')
            prove_eq(E, kw['section_idx'], self.i, 'its own number')
            return SVal('events', self.i)

    class Text(x.Sections):
        def __init__(self):
            pass

        def section_indexes(self):
            return it

        def section(self, i):
            return Section(i)
    evs = Base('events', 'list', ti(n), lambda i: SVal(
        'events', mkint(idx(ti(i)))))
    part = Part(E, 'all')

    def whole(l):
        l = stream_of(l)
        prove_eq(E, mkint(ti(l.n())), n, 'the events of all sections')
        if E.branch(ti(n) > 0):
            i = fresh_int('any', 0)
            E.assume(ti(i) < ti(n))
            prove_eq(E, V.index_segs(list(l.segs()), i),
                     SVal('events', mkint(idx(ti(i)))),
                     'the events of the sections, in order')
        return part.events()

    def chain(*a):
        if len(a) == 1 and isinstance(a[0], Spread):
            return whole(a[0].it)
        return whole(list(a))
    E.models[itertools.chain] = chain
    E.models[itertools.chain.from_iterable] = whole

    def inv(L):
        pos = ti(L.pos)
        for v in list(L.env.values()):
            if type(v) is dict and 'section_idx' in v:
                L.item(v, 'section_idx', mkint(idx(pos - 1)))
        L.contents(L.the_list('bodytext_events'),
                   Rope('list', [View(evs, 0, pos)]))
    E.hints.append((lambda L: True, inv, {'peel': 1}))
    got = x.Sections.events(Text(), other=other)
    wraps(E, got, 'BodyText', {}, part.rope.segs)
    E.prove(part.given == 1, 'once')
    E.cover('sections')


# -- cross-check: whole documents ---------------------------------------------

FILES = ('sample-5017.hwp', 'viewtext.hwp', 'borderfill.hwp', 'matrix.hwp',
         'multicolumns-widths.hwp', 'charshape.hwp')
SECTIONS = ('charshape.hwp', 'borderfill.hwp', 'matrix.hwp')


def tree_of(stg):
    out = {}
    for n in stg:
        x = stg[n]
        if hasattr(x, 'open'):
            f = x.open()
            out[n] = f.read()
            f.close()
        else:
            out[n] = tree_of(x)
    return out


def cases():
    for i, name in enumerate(FILES):
        for embed in (None, False, True):
            yield ('file', name, (), embed)
        yield ('file', name, (2, 10), None)
        yield ('file', name, (3, 1, 10, 7), True)
    yield ('file', FILES[0], (1,), 'no data')


def check_case(case):
    import os
    from pyvc.concrete import need
    from . import doctree as T
    from .c18 import Dict
    M = T.models(need)
    path = os.path.join('/repo/tests/hwp5_tests/fixtures', case[1])
    if not os.path.exists(path):
        return None
    ole = need('hwp5.storage.ole', 'OleStorage')
    tree = tree_of(ole(path))
    text = 'ViewText' if case[1] == 'viewtext.hwp' else 'BodyText'
    numbers = [int(n[7:]) for n in tree[text]]
    for k in case[2]:
        other = os.path.join(os.path.dirname(path), SECTIONS[
            k % len(SECTIONS)])
        if k and text == 'BodyText' and os.path.exists(other):
            tree[text]['Section%d' % k] = tree_of(ole(other))[text]['Section0']
        else:
            tree[text]['Section%d' % k] = tree[text]['Section0']
        if k not in numbers:
            numbers.append(k)
    numbers.sort()
    embed = case[3]
    if embed == 'no data':
        tree.pop('BinData', None)
    f = need('hwp5.xmlmodel', 'Hwp5File')(Dict(tree))
    kw = {} if embed is None else dict(embedbin=bool(embed))
    try:
        top = T.parse(list(f.events(**kw)), M.S, M.E)
    except T.NotNested as ex:
        return 'events of the document: %s' % ex

    def names(nodes):
        return [n.m.__name__ for n in nodes]
    if names(top) != ['HwpDoc']:
        return 'at the top: %r' % names(top)
    if tuple(top[0].a.get('version') or ()) != tuple(
            f.header.version):
        return 'version %r' % (top[0].a,)
    parts = top[0].k
    if names(parts) != ['HwpSummaryInfo', 'DocInfo', 'BodyText']:
        return 'the parts: %r' % names(parts)
    sections = parts[2].k
    if names(sections) != ['SectionDef'] * len(numbers):
        return 'the sections: %r' % names(sections)
    got = [s.a.get('section_id') for s in sections]
    if got != numbers:
        return 'the sections %r have numbers %r' % (numbers, got)
    for k, s in zip(numbers, sections):
        alone = T.parse(list(f.text.section(k).events(
            section_idx=k, **({} if not embed else dict(
                embedbin=f['BinData'] if 'BinData' in tree else 0)))),
            M.S, M.E)
        if len(alone) != 1 or shape(alone[0]) != shape(s):
            return 'section %d has other elements in the document' % k
    # stored data
    want = embed is True and 'BinData' in tree
    for n in every(parts[1]):
        if n.m.__name__ == 'BinData':
            b = n.a.get('bindata')
            if isinstance(b, dict) and 'storage_id' in b \
                    and ('<text>' in b) != want:
                return 'embedbin=%r: %r' % (embed, sorted(b))
    return None


def every(node):
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        todo += n.k


def shape(node):
    return [n.m for n in every(node)]
