"""Mechanical instrumentation of Python source.

The functions under verification are taken from the files in /repo on every
run.  The AST is rewritten so that the handful of operations the host
interpreter performs without asking the operands (calls, `is`, `in`,
subscripts, `%`, f-strings, comprehensions over symbolic collections, `**`)
go through the engine; everything else - statements, control flow, classes,
MRO, descriptors, exceptions, closures - is left exactly as written and
executed by CPython.  Nothing is dropped: no statement, branch or expression
of the source is removed, reordered or replaced by a summary.
"""
import ast
import copy

VC = '__vc__'


def _vc(name, node):
    return ast.copy_location(ast.Attribute(
        value=ast.copy_location(ast.Name(id=VC, ctx=ast.Load()), node),
        attr=name, ctx=ast.Load()), node)


class _Names(ast.NodeVisitor):
    """Does an expression contain something a lambda cannot carry?"""

    def __init__(self):
        self.bad = False

    def visit_NamedExpr(self, node):
        self.bad = True

    def visit_Yield(self, node):
        self.bad = True

    visit_YieldFrom = visit_Yield
    visit_Await = visit_Yield

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' \
                and not node.args:
            self.bad = True
        if isinstance(node.func, ast.Name) and node.func.id in (
                'locals', 'vars', 'dir'):
            self.bad = True
        self.generic_visit(node)


def _bad(*nodes):
    v = _Names()
    for n in nodes:
        v.visit(n)
    return v.bad


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.in_function = [False]

    # ------------------------------------------------------------ scopes
    def visit_ClassDef(self, node):
        self.in_function.append(False)
        self.generic_visit(node)
        self.in_function.pop()
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.in_function.append(node)
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        self.in_function.pop()
        node.body = body
        if node.args.kwarg is not None:
            name = node.args.kwarg.arg
            pos = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(
                    body[0].value, ast.Constant):
                pos = 1
            new = ast.parse(
                '%s = %s.kwargs_in(%s)' % (name, VC, name)).body[0]
            for n in ast.walk(new):
                ast.copy_location(n, node)
            body.insert(pos, new)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.in_function.append(True)
        self.generic_visit(node)
        self.in_function.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    # -------------------------------------------------------- expressions
    def visit_Call(self, node):
        f = node.func
        if getattr(f, 'vc_done', False):
            node.args = [self.visit(a) for a in node.args]
            return node
        if isinstance(f, ast.Name) and f.id in (
                'super', 'locals', 'globals', 'vars', 'dir') \
                and not node.args and not node.keywords:
            return node
        self.generic_visit(node)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                a = ast.copy_location(ast.Starred(
                    value=ast.copy_location(ast.Call(
                        func=_vc('star', node), args=[a.value] + (
                            [node.func] if _simple(node.func) else []),
                        keywords=[]), node), ctx=ast.Load()), node)
            args.append(a)
        kws = []
        for k in node.keywords:
            if k.arg is None:
                k = ast.copy_location(ast.keyword(
                    arg=None, value=ast.copy_location(ast.Call(
                        func=_vc('dstar', node), args=[node.func, k.value],
                        keywords=[]), node)), node)
            kws.append(k)
        if any(k.arg is None for k in kws) and not isinstance(
                node.func, (ast.Name, ast.Attribute)):
            # do not evaluate the callee twice
            for k in kws:
                if k.arg is None:
                    k.value.args[0] = ast.copy_location(
                        ast.Constant(value=None), node)
        elif any(k.arg is None for k in kws) and not _simple(node.func):
            for k in kws:
                if k.arg is None:
                    k.value.args[0] = ast.copy_location(
                        ast.Constant(value=None), node)
        return ast.copy_location(ast.Call(
            func=_vc('call', node), args=[node.func] + args, keywords=kws),
            node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            name = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_',
                    ast.NotIn: 'not_in', ast.Eq: 'eq',
                    ast.NotEq: 'ne'}.get(type(op))
            if name:
                return ast.copy_location(ast.Call(
                    func=_vc(name, node),
                    args=[node.left, node.comparators[0]], keywords=[]),
                    node)
        elif any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn))
                 for o in node.ops):
            return ast.copy_location(ast.Call(
                func=_vc('unsupported', node),
                args=[ast.copy_location(ast.Constant(
                    value='chained is/in comparison'), node)],
                keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                sl = node.slice
                none = ast.copy_location(ast.Constant(value=None), node)
                key = ast.copy_location(ast.Call(
                    func=_vc('slice', node),
                    args=[sl.lower or none, sl.upper or none,
                          sl.step or none], keywords=[]), node)
            else:
                key = node.slice
            return ast.copy_location(ast.Call(
                func=_vc('getitem', node), args=[node.value, key],
                keywords=[]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Subscript) and not isinstance(
                node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(value=ast.copy_location(
                ast.Call(func=_vc('setitem', node),
                         args=[t.value, t.slice, node.value], keywords=[]),
                node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Subscript) and not isinstance(
                node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(value=ast.copy_location(
                ast.Call(func=_vc('delitem', node),
                         args=[t.value, t.slice], keywords=[]),
                node)), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                func=_vc('mod', node), args=[node.left, node.right],
                keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is not None:
                    spec = self.visit(spec)
                parts.append(ast.copy_location(ast.Tuple(elts=[
                    self.visit(v.value),
                    ast.copy_location(ast.Constant(value=v.conversion),
                                      node),
                    spec or ast.copy_location(
                        ast.Constant(value=''), node),
                ], ctx=ast.Load()), node))
        return ast.copy_location(ast.Call(
            func=_vc('fstr', node), args=parts, keywords=[]), node)

    # ------------------------------------------------------ comprehensions
    def _comp(self, node, kind):
        if not self.in_function[-1] or len(node.generators) != 1:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        if g.is_async or _bad(node):
            self.generic_visit(node)
            return node
        names = _targets(g.target)
        if names is None:
            self.generic_visit(node)
            return node
        it = self.visit(g.iter)
        elt = self.visit(node.elt)
        conds = [self.visit(c) for c in g.ifs]

        def lam(body):
            body = ast.copy_location(body, node) \
                if not hasattr(body, 'lineno') else body
            a = ast.arguments(
                posonlyargs=[], args=[ast.copy_location(
                    ast.arg(arg='__vc_it'), node)],
                vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                defaults=[])
            if isinstance(g.target, ast.Name):
                a.args[0].arg = g.target.id
                return ast.copy_location(ast.Lambda(args=a, body=body),
                                         node)
            # (lambda a, b: body)(*unpacked)
            inner = ast.copy_location(ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[ast.copy_location(
                    ast.arg(arg=n), node) for n in names], vararg=None,
                kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                body=body), node)
            call = ast.copy_location(ast.Call(
                func=inner, args=[ast.copy_location(ast.Starred(
                    value=ast.copy_location(ast.Call(
                        func=_vc('unpack', node),
                        args=[ast.copy_location(
                            ast.Name(id='__vc_it', ctx=ast.Load()), node),
                            ast.copy_location(
                                ast.Constant(value=len(names)), node)],
                        keywords=[]), node), ctx=ast.Load()), node)],
                keywords=[]), node)
            return ast.copy_location(ast.Lambda(args=a, body=call), node)
        if conds:
            cond = conds[0] if len(conds) == 1 else ast.copy_location(
                ast.BoolOp(op=ast.And(), values=conds), node)
            cond = lam(cond)
        else:
            cond = ast.copy_location(ast.Constant(value=None), node)
        return ast.copy_location(ast.Call(
            func=_vc(kind, node), args=[it, lam(elt), cond], keywords=[]),
            node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.copy_location(ast.Tuple(
            elts=[v] if k is None else [k, v], ctx=ast.Load()), node)
            for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.Call(
            func=_vc('mkdict', node), args=pairs, keywords=[]), node)

    def visit_DictComp(self, node):
        node.elt = ast.copy_location(ast.Tuple(
            elts=[node.key, node.value], ctx=ast.Load()), node)
        return self._comp(node, 'dictcomp')

    def visit_ListComp(self, node):
        return self._comp(node, 'listcomp')

    def visit_SetComp(self, node):
        return self._comp(node, 'setcomp')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'genexp')

    # ---------------------------------------------------------- handlers
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        if any(h.type is None or (
                isinstance(h.type, ast.Name)
                and h.type.id == 'BaseException')
                for h in node.handlers):
            h = ast.ExceptHandler(
                type=_vc('Internal', node), name=None,
                body=[ast.copy_location(ast.Raise(exc=None, cause=None),
                                        node)])
            node.handlers.insert(0, ast.copy_location(h, node))
        return node

    def visit_If(self, node):
        node.test = self._test(node.test)
        self.generic_visit(node)
        return node

    visit_While = visit_If
    visit_IfExp = visit_If

    def _test(self, node):
        """`a and b` as a condition: where the truth of a is undecided but
        b is plainly false, the branch is not taken either way, and the path
        need not split."""
        if isinstance(node, ast.BoolOp) and isinstance(node.op, ast.And) \
                and self.in_function[-1] and not _bad(node) and any(
                    _plain(v) for v in node.values[1:]):
            return ast.copy_location(ast.Call(
                func=_Done(_vc('and_test', node)),
                args=[ast.copy_location(ast.Tuple(elts=[
                    ast.copy_location(ast.Lambda(args=ast.arguments(
                        posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                        kw_defaults=[], kwarg=None, defaults=[]), body=v), v),
                    ast.copy_location(ast.Constant(value=_plain(v)), v)],
                    ctx=ast.Load()), v) for v in node.values],
                keywords=[]), node)
        return node

    def _fold(self, node):
        """`for x in it: acc op= e` and `for x in it: if c: acc op= e` over
        a set with undecided members: no path per subset"""
        if node.orelse or not isinstance(node.target, ast.Name) or \
                len(node.body) != 1 or not self.in_function[-1]:
            return None
        st, cond = node.body[0], None
        if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1:
            st, cond = st.body[0], st.test
        if not isinstance(st, ast.AugAssign) or not isinstance(
                st.target, ast.Name) or _bad(st.value, *[cond] * (
                    cond is not None)) or st.target.id == node.target.id:
            return None
        acc = st.target.id
        f = ast.parse('lambda %s, %s: 0' % (acc, node.target.id)).body[0].value
        f.body = ast.BinOp(left=ast.Name(id=acc, ctx=ast.Load()), op=st.op,
                           right=copy.deepcopy(st.value))
        if cond is None:
            g = ast.Constant(value=None)
        else:
            g = ast.parse('lambda %s, %s: 0' % (
                acc, node.target.id)).body[0].value
            g.body = copy.deepcopy(cond)
        f, g = self.visit(f), self.visit(g)
        new = ast.parse('if %s.foldable(__vc_l):\n  %s = %s.fold(__vc_l, %s, '
                        '0, 0)' % (VC, acc, VC, acc)).body[0]
        new.body[0].value.args[2:] = [g, f]
        for x in ast.walk(new):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, node)
            else:
                x.lineno = x.end_lineno = node.lineno
        return new

    def _maploop(self, node):
        """`for x in it: STATEMENTS; acc.append(e)` with a list made just
        before: the same as a comprehension"""
        fun = self.in_function[-1]
        if node.orelse or not isinstance(node.target, ast.Name) or \
                not isinstance(fun, ast.FunctionDef):
            return None
        last = node.body[-1]
        if not (isinstance(last, ast.Expr) and isinstance(
                last.value, ast.Call) and isinstance(
                last.value.func, ast.Attribute)
                and last.value.func.attr == 'append'
                and isinstance(last.value.func.value, ast.Name)
                and len(last.value.args) == 1
                and not isinstance(last.value.args[0], ast.Starred)
                and not last.value.keywords):
            return None
        acc = last.value.func.value.id
        elt = last.value.args[0]
        stmts = node.body[:-1]
        if _bad(elt, *stmts):
            return None
        inner = [x for st in stmts for x in ast.walk(st)] + list(
            ast.walk(elt))
        if any(isinstance(x, (
                ast.Break, ast.Continue, ast.Return, ast.Global, ast.Nonlocal,
                ast.Delete, ast.FunctionDef, ast.ClassDef, ast.Import,
                ast.ImportFrom)) or (
                    isinstance(x, ast.Name) and x.id == acc)
               for x in inner):
            return None
        mine = {id(x) for x in ast.walk(node)}
        stored = {node.target.id} | {
            x.id for x in inner if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Store)}
        made = False
        for x in ast.walk(fun):
            if id(x) in mine:
                continue
            if isinstance(x, ast.Name):
                if x.id in stored:
                    return None
                if x.id == acc and isinstance(x.ctx, ast.Load) \
                        and x.lineno <= node.lineno:
                    return None
            if isinstance(x, ast.arg) and x.arg in stored | {acc}:
                return None
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(
                    x.value, ast.List) and not x.value.elts:
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                if len(ts) == 1 and isinstance(ts[0], ast.Name) \
                        and ts[0].id == acc:
                    made = True
        if not made:
            return None
        new = ast.parse(
            'if %s.mappable(__vc_l, %s):\n'
            '  def __vc_f(%s):\n    return 0\n'
            '  %s = %s.map_loop(__vc_l, __vc_f)' % (
                VC, acc, node.target.id, acc, VC)).body[0]
        body = []
        for st in stmts:
            r = self.visit(copy.deepcopy(st))
            body.extend(r if isinstance(r, list) else [r])
        new.body[0].body[0].value = self.visit(copy.deepcopy(elt))
        new.body[0].body[:0] = body
        for x in ast.walk(new):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, node)
            else:
                x.lineno = x.end_lineno = node.lineno
        return new

    def visit_For(self, node):
        fold = self._fold(node) or self._maploop(node)
        self.generic_visit(node)
        if fold is not None:
            first = ast.copy_location(ast.Assign(targets=[ast.copy_location(
                ast.Name(id='__vc_l', ctx=ast.Store()), node)],
                value=ast.copy_location(ast.Call(
                    func=_vc('loop', node), args=[node.iter], keywords=[]),
                    node)), node)
            node.iter = ast.copy_location(
                ast.Name(id='__vc_l', ctx=ast.Load()), node)
            fold.orelse = [node]
            return [first, fold]
        node.iter = ast.copy_location(ast.Call(
            func=_vc('loop', node), args=[node.iter], keywords=[]), node)
        return node


def _Done(node):
    node.vc_done = True
    return node


def _plain(e):
    """name in self.TABLE and the like: no side effects"""
    if not isinstance(e, ast.Compare) or len(e.ops) != 1 or not isinstance(
            e.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
        return False
    for x in (e.left, e.comparators[0]):
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, (ast.Name, ast.Constant)):
            return False
    return True


def _simple(f):
    while isinstance(f, ast.Attribute):
        f = f.value
    return isinstance(f, ast.Name)


def _targets(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)) and all(
            isinstance(e, ast.Name) for e in t.elts):
        return [e.id for e in t.elts]
    return None


def compile_source(source, filename):
    tree = ast.parse(source, filename)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
