''' C26 records and models '''
from pyvc.unit import unit
from . import streams, commands     # noqa

LEVEL = 'proof'
BOUNDS = ('every tag, every control and every type of parent (complete '
          'enumeration); cross-checks: the records of every sample file, '
          'reordered, at other levels, with unknown tags put between and '
          'bytes added to the payloads, and records of every tag with a '
          'payload of zeros')
ASSUMPTIONS = [
    'no record is more than one level deeper than the one before (C04: '
    'otherwise an error is raised)',
    'the number of members a type takes from its parent is there: '
    'paragraph details come below a paragraph',
    'the members of a type are read as C12 says (resolve_type_events by its '
    'contract)',
    'TableCell and TableCaption are told apart by whether the table body '
    'came before',
]
TAGS = {
    0x10: 'DocumentProperties', 0x11: 'IdMappings', 0x12: 'BinData',
    0x13: 'FaceName', 0x14: 'BorderFill', 0x15: 'CharShape', 0x16: 'TabDef',
    0x17: 'Numbering', 0x18: 'Bullet', 0x19: 'ParaShape', 0x1a: 'Style',
    0x1b: 'DocData', 0x1c: 'DistributeDocData', 0x1e: 'CompatibleDocument',
    0x1f: 'LayoutCompatibility', 0x20: 'TagModel32', 0x42: 'Paragraph',
    0x43: 'ParaText', 0x44: 'ParaCharShape', 0x45: 'ParaLineSeg',
    0x46: 'ParaRangeTag', 0x47: 'Control', 0x48: 'ListHeader',
    0x49: 'PageDef', 0x4a: 'FootnoteShape', 0x4b: 'PageBorderFill',
    0x4c: 'ShapeComponent', 0x4d: 'TableBody', 0x4e: 'ShapeLine',
    0x4f: 'ShapeRectangle', 0x50: 'ShapeEllipse', 0x51: 'ShapeArc',
    0x52: 'ShapePolygon', 0x53: 'ShapeCurve', 0x54: 'ShapeOLE',
    0x55: 'ShapePicture', 0x56: 'ShapeContainer', 0x57: 'ControlData',
    0x58: 'EqEdit', 0x5a: 'ShapeTextArt', 0x5b: 'FormObject',
    0x5c: 'MemoShape', 0x5d: 'MemoList', 0x5e: 'ForbiddenChar',
    0x5f: 'ChartData', 0x73: 'ShapeUnknown',
}
CHIDS = {
    '%%*A': 'FieldRevisionLineAttach', '%%*C': 'FieldRevisionClipping',
    '%%*L': 'FieldRevisionLine', '%%*P': 'FieldRevisionPraise',
    '%%*S': 'FieldRevisionSawtooth', '%%*T': 'FieldRevisionThinking',
    '%%*a': 'FieldRevisionAttach', '%%*c': 'FieldRevisionSimpleChange',
    '%%*d': 'FieldRevisionDelete', '%%*e': 'FieldRevisionSimpleInsert',
    '%%*h': 'FieldRevisionHyperlink', '%%*i': 'FieldRevisionLineLink',
    '%%*l': 'FieldRevisionLeftMove', '%%*n': 'FieldRevisionTransfer',
    '%%*r': 'FieldRevisionRightMove', '%%*t': 'FieldRevisionLineTransfer',
    '%%me': 'FieldMemo', '%%mr': 'FieldRevisionChange',
    '%bmk': 'FieldBookmark', '%clk': 'FieldClickHere',
    '%cpr': 'FieldPrivateInfoSecurity', '%ddt': 'FieldDocDate',
    '%dte': 'FieldDate', '%fmu': 'FieldFormula', '%hlk': 'FieldHyperLink',
    '%mmg': 'FieldMailMerge', '%pat': 'FieldPath',
    '%sig': 'FieldRevisionSign', '%smr': 'FieldSummary',
    '%spl': 'FieldRevisionSplit', '%unk': 'FieldUnknown',
    '%usr': 'FieldUserInfo', '%xrf': 'FieldCrossRef',
    'atno': 'AutoNumbering', 'bokm': 'BookmarkControl', 'cold': 'ColumnsDef',
    'en  ': 'EndNote', 'fn  ': 'FootNote', 'foot': 'Footer',
    'gso ': 'GShapeObjectControl', 'head': 'Header', 'idxm': 'IndexMarker',
    'nwno': 'NewNumbering', 'pgct': 'PageOddEven', 'pghd': 'PageHide',
    'pgnp': 'PageNumberPosition', 'secd': 'SectionDef',
    'tbl ': 'TableControl', 'tcmt': 'HiddenComment', 'tcps': 'TCPSControl',
    'tdut': 'Dutmal',
}
# (type of the parent, after its table body) -> type
LISTHEADERS = {
    ('TableControl', False): 'TableCaption',
    ('TableControl', True): 'TableCell',
    ('GShapeObjectControl', False): 'GShapeObjectCaption',
    ('ShapeComponent', False): 'TextboxParagraphList',
    ('Header', False): 'HeaderParagraphList',
    ('Footer', False): 'FooterParagraphList',
}
CONTROLDATA = {
    'BookmarkControl': 'BookmarkControlData',
    'FieldClickHere': 'FieldClickHereData',
    'SectionDef': 'SectionDefData',
}
CONTROL, LISTHEADER, CTRLDATA, BODY = 0x47, 0x48, 0x57, 0x4d


def wanted(tag, chid=None, parent=None, after_body=False):
    ''' the name of the type of a record '''
    base = TAGS.get(tag)
    if base is None:
        return 'UnknownTagModel'
    if tag == CONTROL:
        return CHIDS.get(chid, base)
    if tag == LISTHEADER:
        return LISTHEADERS.get((parent, after_body), base)
    if tag == CTRLDATA:
        return CONTROLDATA.get(parent, base)
    return base


def parts(cls, base):
    ''' the classes whose members a record of type cls has, in order '''
    own = [base]
    for c in reversed(cls.__mro__):
        if 'attributes' in c.__dict__ and c not in base.__mro__:
            own.append(c)
    return own


def resolve_one(E, tag, chid, parent, has_parent, seen):
    import z3
    from .common import (fresh_int, fresh_list, SIter, SVal, ti, mkint,
                         prove_eq, V, each)
    from pyvc.core import Unsupported
    from hwp5 import binmodel
    G = E.G
    G.declare(t=0)
    child = {'tagid': tag, 'level': SVal('level', 0),
             'seqno': SVal('seqno', 0), 'payload': SVal('payload', 0),
             'tagname': SVal('tagname', 0), 'size': SVal('size', 0)}
    before = dict(child)
    reader = SVal('resolve_values', 0)
    context = {'resolve_values': reader, 'version': SVal('version', 0)}
    pmodel, pcontext = {}, {}
    if has_parent:
        if parent is not None:
            pmodel['type'] = parent
            pmodel['content'] = SVal('parent content', 0)
        if seen is not None:
            pcontext['seen_table_body'] = seen
        context['parent'] = (pcontext, pmodel)
    pbefore = dict(pmodel), dict(pcontext)
    name = wanted(tag, chid,
                  parent.__name__ if parent is not None else None,
                  bool(seen))
    lens, offs = [], [0]
    read = []

    def typed(cls, ctx, resolve):
        E.prove(ctx is context, 'the context of the record')
        E.prove(resolve is reader, 'the reader of the record')
        s = len(read)
        read.append(cls)
        n = fresh_int('events', 1)
        first = offs[-1]
        offs.append(z3.simplify(first + ti(n)) if not isinstance(first, int)
                    or first else ti(n))
        lens.append(n)
        box = {}

        def elem(i, tagname):
            item = V.elemdict(('item', s), i)
            value = E.born({'m%d' % s: SVal('members%d' % s, i)})
            if s == 0 and chid is not None:
                value['chid'] = chid
            item.update({'type': cls, 'value': value})
            return V.elemtuple(('event', s), i, (SVal('ev%d' % s, i), item))
        it = SIter(fresh_list(E, 'events', n, elem), name='events%d' % s)
        it.first, it.s = first, s
        return it
    E.contracts['hwp5.binmodel.resolve_type_events'] = typed
    E.contracts['hwp5.bintype.resolve_type_events'] = typed

    def inv(L):
        L.ghostlet('t', mkint(L.it.first + ti(L.pos)))
    E.hints.append((lambda L: hasattr(L.it, 'first'), inv, {}))
    for pair in each(binmodel.resolve_model_events(context, child)):
        if not isinstance(pair, tuple) or len(pair) != 2:
            E.fail('events')
        ev, item = pair
        if not isinstance(ev, SVal) or not str(ev._base).startswith('ev'):
            E.fail('the events of the members')
        s = int(ev._base[2:])
        prove_eq(E, mkint(offs[s] + ti(ev._idx)), G.t, 'events in order')
        v = item['value'].get('m%d' % s)
        E.prove(isinstance(v, SVal), 'item of the event')
        prove_eq(E, v, SVal('members%d' % s, ev._idx), 'item of its event')
        G.t = G.t + 1
    prove_eq(E, G.t, mkint(offs[-1]), 'every event')
    got = child.get('type')
    E.prove(isinstance(got, type) and got.__name__ == name,
            'type of the record')
    base = binmodel.tag_models.get(tag, binmodel.UnknownTagModel)
    want = parts(got, base)
    E.prove(read == want, 'the members of the tag\'s type, then those its '
            'refinement adds')
    content = child.get('content')
    keys = ['m%d' % s for s in range(len(want))]
    if chid is not None:
        keys.append('chid')
    E.prove(isinstance(content, dict) and sorted(content) == sorted(keys)
            and content.get('chid') == chid, 'content of the record')
    for s in range(len(want)):
        prove_eq(E, content['m%d' % s], SVal('members%d' % s, lens[s] - 1),
                 'all members of the content')
    E.prove(all(child.get(k) is v or child.get(k) == v
                for k, v in before.items()), 'record preserved')
    if has_parent:
        E.prove(context.get('parent') is not None
                and context['parent'][1] is pmodel
                and dict(pmodel) == pbefore[0], 'parent left alone')
        if parent is not None and parent.__name__ == 'TableControl' \
                and tag == BODY:
            E.prove(pcontext.get('seen_table_body') is True,
                    'the table body is remembered')
            E.cover('table body')
        else:
            E.prove(dict(pcontext) == pbefore[1],
                    'only a table remembers its body')
    E.cover('refined' if len(want) > 1 or got is not base else 'plain')


def all_types():
    ''' every type a record may have '''
    from hwp5 import binmodel
    from hwp5.binmodel._shared import tag_models
    from hwp5.binmodel.controls._shared import control_models
    from hwp5.binmodel.tagid56_list_header import list_header_models
    from hwp5.binmodel.tagid71_ctrl_data import control_data_models
    out = []
    for d in (tag_models, control_models, list_header_models,
              control_data_models):
        for v in d.values():
            if v not in out:
                out.append(v)
    out.append(binmodel.UnknownTagModel)
    return sorted(out, key=lambda c: c.__name__)


@unit('C26', funcs=['hwp5.binmodel.resolve_model_events',
                    'hwp5.binmodel.get_extension_mro',
                    'hwp5.binmodel.controls._shared.Control'
                    '.get_extension_key'],
      covers=['refined', 'plain'])
def control(E):
    ''' a control header: the type its identifier says, or Control '''
    names = sorted(CHIDS) + ['what', 'tbl', '    ']
    c = names[E.choose(len(names))]
    from hwp5 import binmodel
    parent = binmodel.tag_models[0x42]
    k = E.choose(3)
    resolve_one(E, CONTROL, c, parent if k == 1 else None, k > 0, None)


@unit('C26', funcs=['hwp5.binmodel.resolve_model_events',
                    'hwp5.binmodel.tagid56_list_header.ListHeader'
                    '.get_extension_key'],
      covers=['refined', 'plain'])
def list_header(E):
    ''' a list header: the type its parent says, or ListHeader '''
    ts = all_types()
    i = E.choose(len(ts) + 2)
    if i >= len(ts):
        resolve_one(E, LISTHEADER, None, None, i > len(ts), None)
        return
    seen = [None, False, True][E.choose(3)]
    resolve_one(E, LISTHEADER, None, ts[i], True, seen)


@unit('C26', funcs=['hwp5.binmodel.resolve_model_events',
                    'hwp5.binmodel.tagid71_ctrl_data.ControlData'
                    '.get_extension_key'],
      covers=['refined', 'plain'])
def control_data(E):
    ''' control data: the type its control says, or ControlData '''
    ts = all_types()
    i = E.choose(len(ts) + 2)
    if i >= len(ts):
        resolve_one(E, CTRLDATA, None, None, i > len(ts), None)
        return
    resolve_one(E, CTRLDATA, None, ts[i], True, None)


@unit('C26', funcs=['hwp5.binmodel.resolve_model_events',
                    'hwp5.binmodel.controls.table_control.TableControl'
                    '.on_child'],
      covers=['plain', 'table body'])
def others(E):
    ''' any other record: the type of its tag; a generic one if the tag is
    not known '''
    tags = [t for t in sorted(TAGS) if t not in (CONTROL, LISTHEADER,
                                                 CTRLDATA)]
    tags += [0, 0xf, 0x21, 0x41, 0x59, 0x60, 0x72, 0x74, 0x3ff]
    tag = tags[E.choose(len(tags))]
    from hwp5.binmodel.controls._shared import control_models
    from hwp5 import binmodel
    ps = [control_models['tbl '], control_models['gso '],
          binmodel.tag_models[0x42], binmodel.UnknownTagModel]
    k = E.choose(len(ps) + 2)
    seen = None
    if k == 0:
        seen = [None, True, False][E.choose(3)]
    if k >= len(ps):
        resolve_one(E, tag, None, None, k > len(ps), None)
    else:
        resolve_one(E, tag, None, ps[k], True, seen)


@unit('C26', covers=['done'], notes=['complete enumeration'])
def registries(E):
    ''' the types declared are those of the format, for every tag number,
    control and parent '''
    from hwp5 import binmodel
    from hwp5.binmodel._shared import tag_models
    from hwp5.binmodel.controls._shared import control_models
    from hwp5.binmodel.tagid56_list_header import list_header_models
    from hwp5.binmodel.tagid71_ctrl_data import control_data_models

    def names(d, key=lambda k: k):
        return dict((key(k), v.__name__) for k, v in d.items())
    E.prove(binmodel.tag_models is tag_models, 'one table of tags')
    for t in range(1024):
        c = tag_models.get(t)
        E.prove((c.__name__ if c else None) == TAGS.get(t),
                'type of tag 0x%x' % t)
        if c is not None:
            E.prove(c.tagid == t, 'tag of its type')
    E.prove(names(control_models) == CHIDS, 'types of controls')
    E.prove(names(list_header_models, lambda k: (k[0].__name__, k[1]))
            == LISTHEADERS, 'types of list headers')
    E.prove(names(control_data_models, lambda k: k.__name__)
            == CONTROLDATA, 'types of control data')
    E.cover('done')


class Rec(object):
    ''' a record: what is set is kept apart '''

    def __init__(self, i, **given):
        self.i = i
        self.given = given
        self.set = {}

    def __getitem__(self, k):
        from pyvc.core import Unsupported
        if k in self.set:
            return self.set[k]
        if k in self.given:
            return self.given[k]
        raise Unsupported('item %r of a record' % (k,))

    def __setitem__(self, k, v):
        self.set[k] = v

    def __contains__(self, k):
        return k in self.set or k in self.given

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k not in self:
            self.set[k] = d
        return self[k]


@unit('C26', funcs=['hwp5.binmodel.parse_models_with_parent'],
      covers=['top', 'child', 'finished'],
      notes=['treeop.prefix_ancestors_from_level by its contract (C04), '
             'parse_model by its contract'])
def with_parent(E):
    ''' every record is parsed once, in order, knowing the model one level
    up that precedes it; then it is yielded '''
    import z3
    from .common import (fresh_int, fresh_list, SIter, SVal, SInt, ti, mkint,
                         prove_eq, V, each, Rope, SList, Lit, segs_of)
    from pyvc.core import Unsupported
    from hwp5 import binmodel
    n = fresh_int('n', 0)
    G = E.G
    G.declare(k=0)
    ctxs, recs = {}, {}
    par = z3.Function(E.fresh('parent'), z3.IntSort(), z3.IntSort())
    depth = z3.Function(E.fresh('depth'), z3.IntSort(), z3.IntSort())
    anc = z3.Function(E.fresh('ancestor'), z3.IntSort(), z3.IntSort(),
                      z3.IntSort())

    def item(i, tag):
        return V.elemtuple('pair', i, (
            Rec(i, kind='context'),
            Rec(i, kind='record', level=SVal('level', i))))
    source = SIter(fresh_list(E, 'records', n, item), name='records')
    root = []

    def ancestors(prefixed, root_item=None):
        E.prove(isinstance(root_item, tuple) and len(root_item) == 2
                and all(isinstance(x, dict) and not x for x in root_item),
                'nothing is known above the top')
        root.append(root_item)
        if not isinstance(prefixed, SIter):
            raise Unsupported('items with levels')
        segs = prefixed.segs()
        E.prove(ti(prefixed.n()) == ti(n), 'every record')

        def at(i):
            x = V.wrap_item('list', V.index_segs(segs, mkint(ti(i))))
            if not isinstance(x, tuple) or len(x) != 2:
                E.fail('level and item')
            level, pair = x
            prove_eq(E, level, SVal('level', i), 'level of the record')
            check_pair(pair, i)
            return pair

        def elem(i, tag):
            d = depth(ti(i))
            E.assume(d >= 0)

            def up(j, tag):
                a = anc(ti(i), ti(j))
                E.assume(z3.And(a >= 0, a < ti(i)))
                return at(SInt(a))
            open_ = fresh_list(E, 'ancestors', mkint(d), up)
            E.assume(z3.Implies(d > 0, anc(ti(i), d - 1) == par(ti(i))))
            # the list is the callee's: changed when it goes on
            return V.elemtuple('ancestry', i, (
                Rope('list', V.normal([Lit((root_item,))]
                                      + list(segs_of(open_)))), at(i)))
        return SIter(fresh_list(E, 'ancestry', n, elem), name='ancestry')

    def check_pair(pair, i):
        E.prove(isinstance(pair, tuple) and len(pair) == 2
                and isinstance(pair[0], Rec) and isinstance(pair[1], Rec)
                and pair[0].given['kind'] == 'context'
                and pair[1].given['kind'] == 'record',
                'the context and the record')
        prove_eq(E, pair[0].i, i, 'context of the record')
        prove_eq(E, pair[1].i, i, 'record of its place')

    def parse(ctx, rec):
        check_pair((ctx, rec), G.k)
        up = ctx.get('parent')
        if not isinstance(up, tuple) or len(up) != 2:
            E.fail('the parent is known')
        if E.branch(depth(ti(G.k)) > 0):
            check_pair(up, SInt(par(ti(G.k))))
            E.cover('child')
        else:
            E.prove(up is root[0], 'nothing above the top')
            E.cover('top')
        E.prove('done' not in rec, 'parsed once')
        rec.given['done'] = True
    E.contracts['hwp5.treeop.prefix_ancestors_from_level'] = ancestors
    E.contracts['hwp5.binmodel.parse_model'] = parse

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for pair in each(binmodel.parse_models_with_parent(source)):
        check_pair(pair, G.k)
        E.prove('done' in pair[1], 'parsed before it is yielded')
        E.prove(sorted(pair[0].set) == ['parent'] and not pair[1].set,
                'nothing else is changed')
        G.k = G.k + 1
    prove_eq(E, G.k, n, 'every record')
    E.cover('finished')


class Read(object):
    ''' what a reader made for a stream is '''

    def __init__(self, stream):
        self.stream = stream


@unit('C26', funcs=['hwp5.binmodel.parse_models_intern',
                    'hwp5.binmodel.init_record_parsing_context',
                    'hwp5.binmodel.parse_models'],
      covers=['remainder', 'nothing left', 'finished', 'models'],
      notes=['parse_models_with_parent by its contract'])
def intern(E):
    ''' one context and model per record, in order; what the type did not
    read is its unparsed remainder '''
    import z3
    from .common import (fresh_int, fresh_list, SIter, SVal, SInt, ti, mkint,
                         prove_eq, V, each, fresh_bytes)
    from pyvc.core import Unsupported
    from hwp5 import binmodel
    n = fresh_int('n', 0)
    G = E.G
    G.declare(k=0)
    used = z3.Function(E.fresh('used'), z3.IntSort(), z3.IntSort())
    size = z3.Function(E.fresh('size'), z3.IntSort(), z3.IntSort())
    base = {'version': SVal('version', 0), 'path': SVal('path', 0)}

    def record(i, tag):
        E.assume(z3.And(used(ti(i)) >= 0, used(ti(i)) <= size(ti(i))))
        return Rec(i, payload=fresh_bytes('payload', mkint(size(ti(i)))),
                   level=SVal('level', i))
    records = SIter(fresh_list(E, 'records', n, record), name='records')

    def parsed(pairs):
        if not isinstance(pairs, SIter):
            raise Unsupported('contexts and records')
        segs = pairs.segs()
        E.prove(ti(pairs.n()) == ti(n), 'every record')

        def elem(i, tag):
            x = V.wrap_item('list', V.index_segs(segs, mkint(ti(i))))
            if not isinstance(x, tuple) or len(x) != 2:
                E.fail('context and record')
            ctx, rec = x
            E.prove(isinstance(rec, Rec), 'the record')
            prove_eq(E, rec.i, i, 'the record of its place')
            E.prove(not rec.set, 'nothing is changed before')
            E.prove(isinstance(ctx, dict) and ctx is not base
                    and ctx.get('record') is rec
                    and ctx.get('version') is base['version']
                    and ctx.get('path') is base['path'],
                    'a context of its own')
            stream = ctx.get('stream')
            E.prove(isinstance(stream, V.SFile), 'a stream of its payload')
            E.prove(ti(stream.tell()) == 0, 'at its start')
            prove_eq(E, stream.content if hasattr(stream, 'content')
                     else stream.getvalue(), rec['payload'], 'its payload')
            # the members are read
            stream.seek(mkint(used(ti(i))))
            return V.elemtuple('parsed', i, (ctx, rec))
        return SIter(fresh_list(E, 'parsed', n, elem), name='parsed')
    E.contracts['hwp5.binmodel.parse_models_with_parent'] = parsed

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    if E.choose(2):
        # parse_models, by the contract of parse_models_intern
        def pairs(ctx, recs):
            E.prove(ctx is base and recs is records, 'the records given')
            return SIter(fresh_list(E, 'pairs', n, lambda i, tag: (
                SVal('ctx', i), SVal('model', i))), name='pairs')
        E.contracts['hwp5.binmodel.parse_models_intern'] = pairs
        for x in each(binmodel.parse_models(base, records)):
            prove_eq(E, x, SVal('model', G.k), 'the models in order')
            G.k = G.k + 1
        prove_eq(E, G.k, n, 'every model')
        E.cover('models')
        return
    for x in each(binmodel.parse_models_intern(base, records)):
        if not isinstance(x, tuple) or len(x) != 2:
            E.fail('context and model')
        ctx, rec = x
        E.prove(ctx.get('record') is rec, 'context of the model')
        E.prove(isinstance(rec, Rec), 'the model')
        prove_eq(E, rec.i, G.k, 'one model per record, in order')
        if E.branch(used(ti(G.k)) < size(ti(G.k))):
            E.prove(sorted(rec.set) == ['unparsed'], 'a remainder')
            prove_eq(E, rec.set['unparsed'],
                     rec['payload'][mkint(used(ti(G.k))):],
                     'the rest of the payload')
            E.cover('remainder')
        else:
            E.prove(not rec.set, 'no remainder')
            E.cover('nothing left')
        G.k = G.k + 1
    prove_eq(E, G.k, n, 'every record')
    E.prove(sorted(base) == ['path', 'version'], 'the given context is left')
    E.cover('finished')


@unit('C26', funcs=['hwp5.binmodel.parse_model',
                    'hwp5.binmodel.raise_on_errorevent'],
      covers=['read', 'unreadable'],
      notes=['resolve_model_events by its contract'])
def model(E):
    ''' the members are read from the record's stream; what cannot be read
    raises ParseError with the cause and where it happened '''
    import z3
    from .common import (fresh_int, fresh_list, SIter, SVal, SInt, ti, mkint,
                         prove_eq, V, each)
    from pyvc.core import Unsupported
    from hwp5 import binmodel
    from hwp5.bintype import ERROREVENT
    from hwp5.dataio import ParseError
    n = fresh_int('events', 1)
    bad = fresh_int('bad', 0, n)            # n: none
    stream = SVal('stream', 0)
    record = {'seqno': 3}
    context = {'stream': stream, 'record': record, 'path': SVal('path', 0),
               'treegroup': SVal('group', 0)}
    mod = dict(record)

    class T(object):
        pass

    def reader(s):
        return Read(s)
    E.contracts['hwp5.bintype.resolve_values_from_stream'] = reader

    def resolve(ctx, m):
        E.prove(ctx is context and m is mod, 'of the record')
        r = ctx.get('resolve_values')
        E.prove(isinstance(r, Read) and r.stream is stream,
                'read from the stream of the record')
        m['type'] = T
        m['content'] = SVal('content', 0)

        def elem(i, tag):
            ev = V.SEither(ti(i) == ti(bad), ERROREVENT, Good, 'event')
            item = V.elemdict('item', i)
            item.update({'type': T, 'exception': SVal('why', i),
                         'bin_offset': SVal('where', i)})
            return V.elemtuple('event', i, (ev, item))
        return SIter(fresh_list(E, 'events', n, elem), name='events')
    E.contracts['hwp5.binmodel.resolve_model_events'] = resolve

    def inv(L):
        for name, v in list(L.env.items()):
            if isinstance(v, V.SList) and not name.startswith('_pyvc'):
                L.contents(name, seen(L.it, L.pos))
        for c in L.loop.collectors if hasattr(L.loop, 'collectors') else ():
            L.contents(c, seen(L.it, L.pos))
        L.fact(ti(L.pos) <= ti(bad), 'nothing unreadable so far')
        L.fact(z3.Implies(ti(L.pos) == 0, True), 'start')

    def seen(it, pos):
        from .common import Rope, View
        (s,) = it.segs()
        return Rope('list', [View(s.base, 0, ti(pos))])
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    try:
        binmodel.parse_model(context, mod)
    except ParseError as e:
        E.prove(ti(bad) < ti(n), 'refused only if unreadable')
        prove_eq(E, e.cause, SVal('why', bad), 'the cause')
        E.prove(e.path is context['path']
                and e.treegroup is context['treegroup']
                and e.record is record, 'where')
        prove_eq(E, e.offset, SVal('where', bad), 'the offset')
        prove_eq(E, mkint(ti(V.seqlen(V.segs_of(e.binevents)))), bad + 1,
                 'what was read before')
        E.cover('unreadable')
        return
    E.prove(ti(bad) == ti(n), 'all of it was readable')
    got = mod.get('binevents')
    E.prove(V.kind_of(got) == 'list', 'the events are kept')
    prove_eq(E, mkint(ti(V.seqlen(V.segs_of(got)))), n, 'all events')
    q = fresh_int('q', 0, n - 1)
    x = V.wrap_item('list', V.index_segs(V.segs_of(got), q))
    prove_eq(E, x[1]['bin_offset'], SVal('where', q), 'in order')
    E.prove(mod['type'] is T and mod['seqno'] == 3, 'type')
    E.cover('read')


class Good(object):
    ''' an event which is not an error '''


# -- the code as it is --------------------------------------------------------

def cases(rng, tier):
    from . import layouts
    for name in layouts.scenarios():
        yield ('layout', name)
    for tag in range(0, 1024):
        yield ('tag', tag)
    for c in sorted(CHIDS) + ['what', 'zzzz']:
        yield ('control', c)
    for n in FIXTURES:
        yield ('file', n)
    for i in range(40000 if tier == 'thorough' else 4000):
        yield ('tree', rng.randrange(1 << 30))
        if i % 40 == 0:
            yield ('stream', rng.randrange(1 << 30))


FIXTURES = (
    'aligns.hwp', 'borderfill.hwp', 'charshape.hwp', 'charstyle.hwp',
    'facename.hwp', 'facename2.hwp', 'footnote-endnote.hwp',
    'headerfooter.hwp', 'issue144-fields-crossing-lineseg-boundary.hwp',
    'issue30.hwp', 'linespacing.hwp', 'lists-bullet.hwp', 'lists.hwp',
    'matrix.hwp', 'multicolumns-in-common-controls.hwp',
    'multicolumns-layout.hwp', 'multicolumns-widths.hwp',
    'multicolumns.hwp', 'pagedefs.hwp', 'paragraph-split-page.hwp',
    'parashape.hwp', 'sample-5017-pics.hwp', 'sample-5017.hwp',
    'shapecomponent-rect-fill.hwp', 'shapecontainer-2.hwp', 'shapeline.hwp',
    'shapepict-scaled.hwp', 'shaperect.hwp', 'tabdef.hwp',
    'table-caption.hwp', 'table-position.hwp', 'table.hwp', 'textbox.hwp',
    'underline-styles.hwp', 'viewtext.hwp')
RICH = ('gso ', 'tbl ', 'secd', 'head', 'foot', 'bokm', '%clk', 'cold',
        'fn  ', 'what', '%hlk', 'tcps')


class Guess(Exception):
    ''' what should be read cannot be told '''


def reader(context, data):
    from .c12 import FormatReader, Odd

    class R(FormatReader):
        def primitive(self, tp):
            if tp.__name__ == 'ParaTextChunks':
                return Ellipsis, self.take(len(self.data) - self.pos)
            return FormatReader.primitive(self, tp)
    return R(context, data)


def expected(records, version):
    ''' for every record (type, content, remainder, index of the parent);
    ends with Short at the first one too short '''
    from pyvc.concrete import need
    from .c12 import Odd, Short
    tag_models = need('hwp5.binmodel', 'tag_models')
    control_models = need('hwp5.binmodel.controls._shared', 'control_models')
    Unknown = need('hwp5.binmodel', 'UnknownTagModel')
    byname = dict((c.__name__, c) for c in types_there())
    out = []
    for i, r in enumerate(records):
        up = None
        for j in range(i - 1, -1, -1):
            if records[j]['level'] < r['level']:
                up = j
                break
        ptype = out[up][0].__name__ if up is not None else None
        body = up is not None and ptype == 'TableControl' and any(
            records[j]['tagid'] == BODY and parent_of(records, j) == up
            for j in range(up, i))
        tag = r['tagid']
        chid = None
        if tag == CONTROL and len(r['payload']) >= 4:
            chid = r['payload'][:4][::-1].decode('latin-1')
        name = wanted(tag, chid, ptype, body)
        cls = byname.get(name)
        if cls is None:
            return out, 'no type %s' % name
        context = {'version': version}
        context['parent'] = ({}, {'type': out[up][0], 'content': out[up][1]}
                             if up is not None else {})
        rd = reader(context, r['payload'])
        content = {}
        try:
            for part in parts(cls, byname.get(TAGS.get(tag), Unknown)):
                if 'attributes' in part.__dict__ or part is not cls:
                    content.update(rd.value(part))
        except (Odd, KeyError):
            raise Guess()
        except Short:
            return out, 'short'
        out.append((cls, content, r['payload'][rd.pos:], up))
    return out, None


def types_there():
    from pyvc.concrete import need
    Base = need('hwp5.binmodel._shared', 'RecordModel')
    need('hwp5.binmodel')
    todo = [Base]
    out = []
    while todo:
        c = todo.pop()
        for s in c.__subclasses__():
            if s not in out:
                out.append(s)
                todo.append(s)
    return out


def parent_of(records, i):
    for j in range(i - 1, -1, -1):
        if records[j]['level'] < records[i]['level']:
            return j
    return None


def same_content(got, want):
    from .c12 import same_format
    if not isinstance(got, dict) or set(got) != set(want):
        return False
    for k, v in want.items():
        if isinstance(v, tuple) and len(v) == 2 and v[0] is Ellipsis:
            continue
        if not same_format(got[k], v):
            return False
    return True


def record(tag, level, seqno, payload):
    return dict(tagid=tag, level=level, seqno=seqno, payload=payload,
                size=len(payload), tagname='T%d' % tag)


def compare(records, version, tell=''):
    from pyvc.concrete import need
    parse, only = need('hwp5.binmodel', 'parse_models_intern', 'parse_models')
    ParseError = need('hwp5.dataio', 'ParseError')
    try:
        want, end = expected(records, version)
    except Guess:
        return None
    if end not in (None, 'short'):
        return end
    given = [dict(r) for r in records]
    base = {'version': version, 'path': 'p'}
    out = []
    failed = None
    try:
        for context, m in parse(base, iter(given)):
            out.append((context, m))
    except ParseError as e:
        failed = e
    where = '%s, records %s' % (tell, [
        (hex(r['tagid']), r['level'], r['payload'][:8]) for r in records[:9]])
    if (failed is not None) != (end == 'short'):
        return 'record %d %s; %s' % (len(out), 'refused: %r' % (
            failed.cause,) if failed else 'accepted', where)
    if len(out) != len(want):
        return '%d models instead of %d; %s' % (len(out), len(want), where)
    if failed is not None and (
            failed.record is None
            or failed.record.get('seqno') != records[len(out)]['seqno']):
        return 'the record which fails is not named; %s' % where
    for i, (context, m) in enumerate(out):
        r = records[i]
        cls, content, rest, up = want[i]
        at = 'model %d; %s' % (i, where)
        for k in r:
            if m.get(k) != r[k]:
                return '%s is %r, not %r: %s' % (k, m.get(k), r[k], at)
        if m['type'] is not cls:
            return 'type %s, not %s: %s' % (m['type'].__name__, cls.__name__,
                                            at)
        if not same_content(m['content'], content):
            return 'content %r, not %r: %s' % (m['content'], content, at)
        if m.get('unparsed', b'') != rest or ('unparsed' in m) != bool(rest):
            return 'unparsed %r, not %r: %s' % (m.get('unparsed'), rest, at)
        p = context['parent'][1]
        if up is None:
            if p:
                return 'parent %r of a top model: %s' % (p.get('seqno'), at)
        elif p is not out[up][1] or context['parent'][0] is not out[up][0]:
            return 'parent is %r, not %d: %s' % (p.get('seqno'), up, at)
    if base != {'version': version, 'path': 'p'}:
        return 'the context given is changed; %s' % where
    if failed is None:
        again = list(only(base, [dict(r) for r in records]))
        if [(m['type'], m['payload'], m.get('unparsed')) for m in again] \
                != [(m['type'], m['payload'], m.get('unparsed'))
                    for c, m in out]:
            return 'parse_models differs; %s' % where
    return None


def bytes_like(rng, n):
    mode = rng.randrange(3)
    if mode == 0:
        return bytes(n)
    if mode == 1:
        return bytes(rng.choice([0, 0, 0, 0, 1, 2]) for i in range(n))
    return bytes(rng.randrange(256) if rng.random() < .15 else
                 rng.randrange(2) for i in range(n))


def random_tree(rng, n):
    records = []
    for i in range(n):
        level = 0
        if records:
            level = rng.randrange(0, records[-1]['level'] + 2)
            if rng.random() < .5:
                level = rng.choice([records[-1]['level'],
                                    records[-1]['level'] + 1])
        up = None
        for r in reversed(records):
            if r['level'] < level:
                up = r
                break
        k = rng.random()
        if up is not None and up['tagid'] == CONTROL and k < .6:
            tag = rng.choice([LISTHEADER, BODY, CTRLDATA, 0x4c, 0x42])
        elif up is not None and up['tagid'] == 0x42 and k < .7:
            tag = rng.choice([CONTROL, CONTROL, CONTROL, 0x43, 0x44, 0x45,
                              0x46])
        elif k < .7:
            tag = rng.choice([CONTROL, LISTHEADER, CTRLDATA, BODY, 0x4c,
                              0x42, 0x42])
        elif k < .9:
            tag = rng.choice([t for t in TAGS if t not in (0x44, 0x45,
                                                           0x46)])
        else:
            tag = rng.choice([0x21, 0x59, 0x74, 0x3ff, 0, 5])
        payload = bytes_like(rng, rng.choice([0, 3, 16, 60, 300, 300, 900,
                                              900, 900]))
        if tag == CONTROL:
            c = rng.choice(RICH if rng.random() < .7 else sorted(CHIDS))
            payload = c.encode('latin-1')[::-1] + payload
        elif tag == 0x42 and rng.random() < .7:
            payload = bytes(rng.choice([22, 24, 40]))
        elif tag == 0x43:
            payload = ''.join(rng.choice('ab \r가') for k in range(
                rng.randrange(20))).encode('utf-16le')
        records.append(record(tag, level, rng.randrange(1 << 20) if
                              rng.random() < .3 else i, payload))
    return records


VERSIONS = [(5, 0, 0, 0), (5, 0, 1, 7), (5, 0, 2, 4), (5, 0, 2, 5),
            (5, 0, 3, 2), (5, 0, 4, 0), (5, 1, 0, 0)]


class Item(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        import io
        return io.BytesIO(self.data)


def encode(records):
    import struct
    out = []
    for r in records:
        n = len(r['payload'])
        out.append(struct.pack('<I', r['tagid'] | r['level'] << 10
                               | min(n, 0xfff) << 20))
        if n >= 0xfff:
            out.append(struct.pack('<I', n))
        out.append(r['payload'])
    return b''.join(out)


def check_case(case):
    import random
    from pyvc.concrete import need
    kind, x = case
    if kind == 'layout':
        from . import layouts
        return layouts.check(x, True)
    if kind == 'tag':
        rng = random.Random(x)
        para = record(0x42, 0, 0, bytes(24))
        for up in (None, 0x42, 0x47):
            if x in (0x44, 0x45, 0x46) and up != 0x42:
                continue
            rs = [para]
            if up == 0x47:
                rs.append(record(0x47, 1, 1, b' lbt' + bytes(60)))
            rs.append(record(x, 0 if up is None else len(rs), len(rs),
                             bytes(rng.choice([2000, 4096]))))
            for v in (VERSIONS[0], VERSIONS[-1]):
                m = compare(rs, v, 'tag 0x%x' % x)
                if m:
                    return m
        return None
    if kind == 'control':
        for child in (LISTHEADER, CTRLDATA, 0x4c):
            for body in (False, True):
                rs = [record(0x42, 0, 0, bytes(24)),
                      record(0x47, 1, 1, x.encode('latin-1')[::-1]
                             + bytes(300))]
                if body:
                    rs.append(record(BODY, 2, 2, bytes(100)))
                rs.append(record(child, 2, len(rs), bytes(2000)))
                rs.append(record(LISTHEADER, 3, len(rs), bytes(100)))
                rs.append(record(child, 2, len(rs), bytes(2000)))
                for deep in (0, 1, 4):
                    below = [record(0x42, i, i, bytes(24))
                             for i in range(deep)]
                    for r in rs:
                        below.append(dict(r, level=r['level'] + deep,
                                          seqno=len(below)))
                    m = compare(below, (5, 0, 3, 2), 'control %r' % x)
                    if m:
                        return m
        return None
    if kind == 'file':
        return check_file(x)
    rng = random.Random(x)
    rs = random_tree(rng, rng.choice([1, 2, 3, 4, 5, 8, 14]))
    if kind == 'tree':
        return compare(rs, rng.choice(VERSIONS))
    # through a stream
    for i, r in enumerate(rs):
        r['seqno'] = i
    version = rng.choice(VERSIONS)
    try:
        want, end = expected(rs, version)
    except Guess:
        return None
    if end is not None:
        return None
    Stream = need('hwp5.binmodel', 'ModelStream')
    stream = Stream(Item(encode(rs)), version)

    def differ(got, rs, want):
        if len(got) != len(rs):
            return '%d models of %d records' % (len(got), len(rs))
        for r, w, m in zip(rs, want, got):
            if (m['type'], m['payload'], m['level'], m['seqno'], m['tagid'],
                    m.get('unparsed', b'')) != (
                        w[0], r['payload'], r['level'], r['seqno'],
                        r['tagid'], w[2]):
                return 'model %r of record %r' % (m, r)
    msg = differ(list(stream.models()), rs, want)
    if msg:
        return msg
    tops = [i for i, r in enumerate(rs) if r['level'] == 0] + [len(rs)]
    groups = [list(g) for g in stream.models_treegrouped()]
    if len(groups) != len(tops) - 1:
        return '%d groups of %d' % (len(groups), len(tops) - 1)
    for k, (a, b) in enumerate(zip(tops, tops[1:])):
        msg = differ(groups[k], rs[a:b], want[a:b]) or differ(
            list(stream.models(treegroup=k)), rs[a:b], want[a:b])
        if msg:
            return 'group %d: %s' % (k, msg)
    for k in 0, len(rs) - 1, rng.randrange(len(rs)):
        msg = differ([stream.model(k)], rs[k:k + 1], want[k:k + 1])
        if msg:
            return 'model %d: %s' % (k, msg)
    if stream.model(len(rs)) is not None:
        return 'a model too many'
    return check_events(stream, rs, want) \
        or check_command(rs, want, version, len(tops) - 1)


def check_command(rs, want, version, groups):
    ''' hwp5proc models on standard input '''
    import argparse
    import contextlib
    import io
    import json
    import sys
    from pyvc.concrete import need
    main, argparser = need('hwp5.proc.models', 'main', 'models_argparser')
    p = argparse.ArgumentParser()
    argparser(p.add_subparsers(), lambda s: s)

    class In(object):
        buffer = None

    def run(*argv):
        argv = ['models', '-V', '.'.join(map(str, version))] + list(argv)
        old = sys.stdin
        sys.stdin = In()
        sys.stdin.buffer = io.BytesIO(encode(rs))
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                main(p.parse_args(argv))
        finally:
            sys.stdin = old
        return out.getvalue()

    def line(k):
        return '%04d %s%s\n' % (k, ' ' * rs[k]['level'],
                                want[k][0].__name__)
    every = range(len(rs))
    if run('--simple') != ''.join(map(line, every)):
        return 'models --simple prints %r' % run('--simple')
    if run('--format', '%(seqno)d-%(type)s-%(tagid)d\\n') != ''.join(
            '%d-%s-%d\n' % (k, want[k][0].__name__, rs[k]['tagid'])
            for k in every):
        return 'models --format prints other models'
    for k in {0, len(rs) // 2, len(rs) - 1}:
        if run('--simple', '--seqno', str(k)) != line(k):
            return 'models --seqno %d prints %r' % (
                k, run('--simple', '--seqno', str(k)))
    if run('--simple', '--seqno', str(len(rs))):
        return 'models --seqno prints a model too many'
    got = ''.join(run('--simple', '--treegroup', str(k))
                  for k in range(groups))
    if got != ''.join(map(line, every)):
        return 'models --treegroup prints %r' % got
    got = json.loads(run())
    if [(m['seqno'], m['type'], m['tagid'], m['level']) for m in got] != [
            (k, want[k][0].__name__, rs[k]['tagid'], rs[k]['level'])
            for k in every]:
        return 'models prints other models'
    return None


def check_events(stream, rs, want):
    ''' the events of a stream: every record around its members '''
    from pyvc.concrete import need
    Base = need('hwp5.binmodel._shared', 'RecordModel')
    t = need('hwp5.treeop')
    k = -1
    depth = 0
    for ev, item in stream.parse_model_events():
        if item['type'] is not Base:
            if depth < 1:
                return 'a member outside its record'
            depth += {t.STARTEVENT: 1, t.ENDEVENT: -1}.get(ev, 0)
            if depth < 1:
                return 'a member ends too often'
            continue
        if ev is t.STARTEVENT:
            if depth:
                return 'a record inside another'
            k += 1
            depth = 1
            if k >= len(rs):
                return 'events of a record too many'
            r = rs[k]
            if item['name'] != item['record']['tagname'] or any(
                    item['record'][x] != r[x] for x in (
                        'tagid', 'level', 'seqno', 'payload')):
                return 'events of %r for record %d' % (item['record'], k)
            up = want[k][3]
            p = item['parent'][1]
            if (p.get('seqno') if p else None) != (
                    None if up is None else rs[up]['seqno']):
                return 'the parent in the events of record %d' % k
        elif ev is t.ENDEVENT:
            if depth != 1:
                return 'record %d ends before its members' % k
            depth = 0
            rest = want[k][2]
            if item['leftover'] != {
                    'offset': len(rs[k]['payload']) - len(rest),
                    'bytes': rest}:
                return 'left of record %d: %r, not %r' % (
                    k, item['leftover'], rest)
            if item['model']['type'] is not want[k][0]:
                return 'type of record %d in the events' % k
        else:
            return 'event %r of a record' % (ev,)
    if k != len(rs) - 1 or depth:
        return 'events of %d records of %d' % (k + 1, len(rs))
    return None


def check_file(name):
    import os
    import random
    from pyvc.concrete import need
    File = need('hwp5.recordstream', 'Hwp5File')
    here = os.path.join(os.path.dirname(need('hwp5', '__file__')), '..',
                        '..', 'tests', 'hwp5_tests', 'fixtures')
    if not os.path.isdir(here):
        here = '/repo/tests/hwp5_tests/fixtures'
    path = os.path.join(here, name)
    if not os.path.exists(path):
        return None
    f = File(path)
    version = f.header.version
    rng = random.Random(name)
    streams = [f.docinfo] + [f.bodytext.section(i)
                             for i in f.bodytext.section_indexes()]
    for s in streams:
        rs = [dict(r) for r in s.records()]
        m = compare(rs, version, name)
        if m:
            return m
        try:
            want, end = expected(rs, version)
        except Guess:
            end = 'guess'
        m = None
        if end is None:
            m = check_events(need('hwp5.binmodel', 'ModelStream')(
                Item(encode(rs)), version), rs, want)
        if m:
            return '%s: %s' % (name, m)
        out = []
        for r in rs:
            if rng.random() < .1:
                up = out[-1]['level'] if out else 0
                out.append(record(rng.choice([0x21, 0x74, 0x3fe]), up,
                                  len(out), b'unknown'))
            r = dict(r)
            if rng.random() < .5 and r['tagid'] != 0x43:
                r['payload'] += bytes_like(rng, rng.randrange(1, 9))
            out.append(r)
        m = compare(out, version, name + ' with more')
        if m:
            return m
    return None
