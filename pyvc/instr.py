''' Mechanical instrumentation of the real source of /repo/src/hwp5.

Every run parses the current files and rewrites *function bodies* so that
calls, subscripts, attribute stores, displays, identity/membership tests,
formatting and loops go through the hooks (pyvc.hooks).  Nothing is dropped:
the statements executed are the statements of the file, in the same order.
Without an active engine each hook does what the original construct does.
'''
import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import hooks

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}
H = '_pyvc_h_'


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def hook(attr, *args):
    return ast.Call(func=ast.Attribute(value=name(H), attr=attr,
                                       ctx=ast.Load()),
                    args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


class NameStores(ast.NodeVisitor):
    ''' names bound by statements, not descending into nested scopes '''

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.startswith('_pyvc'):
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_GeneratorExp(self, node):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import


def stored_names(stmts):
    v = NameStores()
    for s in stmts:
        v.visit(s)
    return v.names


class Has(ast.NodeVisitor):
    def __init__(self, types):
        self.types = types
        self.found = False

    def generic_visit(self, node):
        if isinstance(node, self.types):
            self.found = True
        if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        ast.NodeVisitor.generic_visit(self, node)


def is_passthrough(node):
    ''' for x in it: yield x '''
    return (isinstance(node.target, ast.Name) and len(node.body) == 1
            and isinstance(node.body[0], ast.Expr)
            and isinstance(node.body[0].value, ast.Yield)
            and isinstance(node.body[0].value.value, ast.Name)
            and node.body[0].value.value.id == node.target.id
            and not node.orelse)


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.scope = []         # qualname parts
        self.infunc = 0
        self.counter = [0]
        self.tmp = 0

    def temp(self, stem):
        self.tmp += 1
        return '_pyvc_%s%d' % (stem, self.tmp)

    # -- scopes

    def visit_FunctionDef(self, node):
        # decorators and defaults are evaluated outside
        node.decorator_list = [self.visit(d) if self.infunc else d
                               for d in node.decorator_list]
        if self.infunc:
            node.args = self.visit(node.args)
        self.scope.append(node.name)
        self.infunc += 1
        self.counter.append(0)
        node.body = self.block(node.body)
        self.counter.pop()
        self.infunc -= 1
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        saved = self.infunc
        if saved:
            node.bases = [self.visit(b) for b in node.bases]
        self.infunc = 0
        node.body = [self.visit(s) for s in node.body]
        self.infunc = saved
        self.scope.pop()
        return node

    def visit_Lambda(self, node):
        self.infunc += 1
        self.counter.append(0)
        node = self.generic_visit(node)
        self.counter.pop()
        self.infunc -= 1
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # -- expressions

    def visit_Call(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        for a in node.args:
            if isinstance(a, ast.Starred):
                a.value = hook('star', a.value)
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=name(H), attr='call', ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_List(self, node):
        node = self.generic_visit(node)
        if not self.infunc or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(hook('list', node), node)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if not self.infunc:
            return node
        return ast.copy_location(hook('dict', node), node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if not self.infunc or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(
            hook('getitem', node.value, self.index(node.slice)), node)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=name('slice'), args=[
                s.lower or const(None), s.upper or const(None),
                s.step or const(None)], keywords=[])
        return s

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if not self.infunc:
            return node
        if len(node.ops) == 1:
            op = node.ops[0]
            f = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_',
                 ast.NotIn: 'not_in'}.get(type(op))
            if f:
                return ast.copy_location(
                    hook(f, node.left, node.comparators[0]), node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if self.infunc and isinstance(node.op, ast.Mod):
            return ast.copy_location(hook('mod', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        node = self.generic_visit(node)
        if not self.infunc:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                if spec is None:
                    spec = const('')
                parts.append(ast.Tuple(elts=[
                    v.value, const(v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(hook('fstring', *parts), node)

    def visit_GeneratorExp(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        return self.comp(node, 'genexp')

    def visit_ListComp(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        return self.comp(node, 'listcomp')

    def visit_DictComp(self, node):
        if not self.infunc or len(node.generators) != 1:
            return self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        lc = ast.ListComp(elt=pair, generators=node.generators)
        return self.comp(ast.copy_location(lc, node), 'dictcomp')

    def comp(self, node, kind):
        node = self.generic_visit(node)
        if len(node.generators) != 1:
            if kind == 'listcomp':
                return ast.copy_location(hook('list', node), node)
            return node
        g = node.generators[0]
        it = g.iter
        g.iter = name('_pyvc_it')
        ge = ast.GeneratorExp(elt=node.elt, generators=[g])
        lam = ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg='_pyvc_it')], kwonlyargs=[],
            kw_defaults=[], defaults=[]), body=ge)
        return ast.copy_location(
            hook(kind, lam, it, const(bool(g.ifs))), node)

    # -- statements

    def visit_Assign(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        value = self.visit(node.value)
        pre = []
        if len(node.targets) == 1 and self.simple(node.targets[0]):
            node.targets = [self.visit(t) for t in node.targets]
            node.value = value
            return node
        if len(node.targets) > 1 or isinstance(node.targets[0],
                                               (ast.Tuple, ast.List)):
            t = self.temp('v')
            pre.append(ast.Assign(targets=[name(t, ast.Store())],
                                  value=value))
            value = name(t)
        for tg in node.targets:
            pre.extend(self.store(tg, value))
        return [ast.copy_location(s, node) for s in pre]

    def simple(self, t):
        ''' a target made of names only '''
        if isinstance(t, ast.Name):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return all(self.simple(e) for e in t.elts)
        if isinstance(t, ast.Starred):
            return self.simple(t.value)
        return False

    def store(self, t, value):
        if self.simple(t):
            return [ast.Assign(targets=[t], value=value)]
        if isinstance(t, ast.Subscript):
            o = self.visit(t.value)
            i = self.index(self.visit(t.slice))
            return [ast.Expr(value=hook('setitem', o, i, value))]
        if isinstance(t, ast.Attribute):
            o = self.visit(t.value)
            return [ast.Expr(value=hook('setattr', o, const(t.attr), value))]
        if isinstance(t, (ast.Tuple, ast.List)):
            names = [self.temp('u') for _ in t.elts]
            out = [ast.Assign(targets=[ast.Tuple(
                elts=[name(n, ast.Store()) for n in names],
                ctx=ast.Store())], value=value)]
            for n, e in zip(names, t.elts):
                out.extend(self.store(e, name(n)))
            return out
        raise hooks.Unsupported('assignment target')

    def visit_AugAssign(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Name):
            node.value = self.visit(node.value)
            if isinstance(node.op, ast.Mod):
                return ast.copy_location(ast.Assign(
                    targets=[t], value=hook('mod', name(t.id), node.value)),
                    node)
            return node
        o = self.temp('o')
        value = self.visit(node.value)
        pre = [ast.Assign(targets=[name(o, ast.Store())],
                          value=self.visit(t.value))]
        r = self.temp('r')
        if isinstance(t, ast.Attribute):
            cur = ast.Attribute(value=name(o), attr=t.attr, ctx=ast.Load())
            pre.append(ast.Assign(targets=[name(r, ast.Store())], value=cur))
            pre.append(ast.AugAssign(target=name(r, ast.Store()), op=node.op,
                                     value=value))
            pre.append(ast.Expr(value=hook('setattr', name(o), const(t.attr),
                                           name(r))))
        else:
            i = self.temp('i')
            pre.append(ast.Assign(targets=[name(i, ast.Store())],
                                  value=self.index(self.visit(t.slice))))
            pre.append(ast.Assign(targets=[name(r, ast.Store())],
                                  value=hook('getitem', name(o), name(i))))
            pre.append(ast.AugAssign(target=name(r, ast.Store()), op=node.op,
                                     value=value))
            pre.append(ast.Expr(value=hook('setitem', name(o), name(i),
                                           name(r))))
        return [ast.copy_location(s, node) for s in pre]

    def visit_Delete(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=hook(
                    'delitem', self.visit(t.value),
                    self.index(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[t]))
        return [ast.copy_location(s, node) for s in out]

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        if self.infunc and node.type is None:
            # PathEnd & co. are BaseExceptions and have to pass
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        return node

    def loopkey(self):
        self.counter[-1] += 1
        return '%s:%s#%d' % (self.modname, '.'.join(self.scope),
                             self.counter[-1])

    def rebind(self, modified, st):
        out = []
        for v in modified:
            out.append(ast.If(
                test=ast.Compare(left=const(v), ops=[ast.In()],
                                 comparators=[name(st)]),
                body=[ast.Assign(targets=[name(v, ast.Store())],
                                 value=ast.Subscript(
                                     value=name(st), slice=const(v),
                                     ctx=ast.Load()))],
                orelse=[]))
        return out

    def visit_For(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        key = self.loopkey()
        modified = stored_names([ast.Assign(targets=[node.target],
                                            value=const(0))] + node.body)
        passthrough = is_passthrough(node)
        it = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        if not self.simple(node.target):
            t = self.temp('t')
            assigns = self.store(node.target, name(t))
            # evaluated from a temp
            assigns = [ast.Assign(targets=[name(t, ast.Store())],
                                  value=name('__PLACEHOLDER'))] + assigns
        else:
            assigns = [ast.Assign(targets=[node.target],
                                  value=name('__PLACEHOLDER'))]
        L = self.temp('L')
        st = self.temp('s')
        x = self.temp('x')
        assigns[0].value = name(x)
        if orelse:
            flag = self.temp('e')
        else:
            flag = None
        endbody = [ast.Break()]
        if flag:
            endbody = [ast.Assign(targets=[name(flag, ast.Store())],
                                  value=const(True)), ast.Break()]
        loop = ast.While(
            test=const(True),
            body=[
                ast.Assign(targets=[name(st, ast.Store())],
                           value=hook('head', name(L), ast.Call(
                               func=name('locals'), args=[], keywords=[]))),
                ast.If(test=ast.Compare(left=name(st), ops=[ast.IsNot()],
                                        comparators=[const(None)]),
                       body=self.rebind(modified, st) or [ast.Pass()],
                       orelse=[]),
                ast.Assign(targets=[name(x, ast.Store())],
                           value=hook('next', name(L))),
                ast.If(test=ast.Compare(
                    left=name(x), ops=[ast.Is()],
                    comparators=[ast.Attribute(value=name(H), attr='END',
                                               ctx=ast.Load())]),
                    body=endbody, orelse=[]),
            ] + assigns + body,
            orelse=[])
        out = [ast.Assign(targets=[name(L, ast.Store())],
                          value=hook('loop', const(key), it, ast.Tuple(
                              elts=[const(m) for m in modified],
                              ctx=ast.Load()), const(passthrough)))]
        if flag:
            out.append(ast.Assign(targets=[name(flag, ast.Store())],
                                  value=const(False)))
        out.append(loop)
        if flag:
            out.append(ast.If(test=name(flag), body=orelse, orelse=[]))
        out.append(ast.Expr(value=hook('exit', name(L))))
        return [ast.copy_location(s, node) for s in out]

    def visit_While(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        key = self.loopkey()
        modified = stored_names(
            [ast.Expr(value=node.test)] + node.body)
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        L = self.temp('L')
        st = self.temp('s')
        flag = self.temp('e') if orelse else None
        endbody = [ast.Break()]
        if flag:
            endbody = [ast.Assign(targets=[name(flag, ast.Store())],
                                  value=const(True)), ast.Break()]
        loop = ast.While(
            test=const(True),
            body=[
                ast.Assign(targets=[name(st, ast.Store())],
                           value=hook('head', name(L), ast.Call(
                               func=name('locals'), args=[], keywords=[]))),
                ast.If(test=ast.Compare(left=name(st), ops=[ast.IsNot()],
                                        comparators=[const(None)]),
                       body=self.rebind(modified, st) or [ast.Pass()],
                       orelse=[]),
                ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test),
                       body=endbody, orelse=[]),
            ] + body,
            orelse=[])
        out = [ast.Assign(targets=[name(L, ast.Store())],
                          value=hook('loop', const(key), const(None),
                                     ast.Tuple(elts=[const(m)
                                                     for m in modified],
                                               ctx=ast.Load()),
                                     const(False)))]
        if flag:
            out.append(ast.Assign(targets=[name(flag, ast.Store())],
                                  value=const(False)))
        out.append(loop)
        if flag:
            out.append(ast.If(test=name(flag), body=orelse, orelse=[]))
        out.append(ast.Expr(value=hook('exit', name(L))))
        return [ast.copy_location(s, node) for s in out]


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            source = f.read()
        hooks.SOURCES[fullname] = path
        return instrument(source, path, fullname)

    def exec_module(self, module):
        module.__dict__[H] = hooks.HOOKS
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path, target=None):
        if fullname != 'hwp5' and not fullname.startswith('hwp5.'):
            return None
        rel = os.path.join(self.root, *fullname.split('.'))
        if os.path.isdir(rel) and os.path.exists(rel + '/__init__.py'):
            p = rel + '/__init__.py'
            return importlib.machinery.ModuleSpec(
                fullname, Loader(fullname, p), origin=p, is_package=True) \
                if False else importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(fullname, p),
                    submodule_search_locations=[rel])
        if os.path.exists(rel + '.py'):
            p = rel + '.py'
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p))
        return None


def install(root='/repo/src'):
    import importlib.util  # noqa
    sys.meta_path.insert(0, Finder(root))
