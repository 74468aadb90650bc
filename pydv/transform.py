"""Rewrites the loops of the real source so that the verifier can cut them; everything else is executed as it is written.

    for T in ITER: BODY else: E   ->   L = __rt.for_begin(id, ITER, getters)
                                       if L.sym: (assigned...,) = L.havoc()
                                       for T in L: BODY          # L checks the invariants between iterations
                                       else: E
    while C: BODY                 ->   L = __rt.while_begin(id, lambda: C, getters); if L.sym: (...) = L.havoc()
                                       while L.head() and C: BODY
    [E for T in ITER if C]        ->   __rt.comp(kind, ITER, lambda T: E, [lambda T: C...])     (single generator)
"""
import ast, copy


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)) and node.id not in self.names:
            self.names.append(node.id)

    def visit_FunctionDef(self, node):
        if node.name not in self.names:
            self.names.append(node.name)

    visit_Lambda = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = lambda self, node: None


def assigned(stmts):
    v = Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.func = []
        self.n = {}
        self.loops = {}

    def visit_FunctionDef(self, node):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg: params.append(a.vararg.arg)
        if a.kwarg: params.append(a.kwarg.arg)
        qual = '.'.join([f[0] for f in self.func] + [node.name])
        self.func.append((node.name, params + assigned(node.body), qual, [0]))
        node.body = [self.visit(s) for s in node.body]
        node.body = flatten(node.body)
        self.func.pop()
        return node

    def visit_ClassDef(self, node):
        self.func.append((node.name, None, None, [0]))
        node.body = flatten([self.visit(s) for s in node.body])
        self.func.pop()
        return node

    def _id(self):
        f = self.func[-1]
        f[3][0] += 1
        return '%s#%d' % (f[2], f[3][0])

    def _getters(self, names):
        return ast.Dict(keys=[ast.Constant(n) for n in names], values=[
            ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Name(n, ast.Load()))
            for n in names])

    def _infunc(self):
        return self.func and self.func[-1][1] is not None

    def visit_For(self, node):
        if not self._infunc():
            return node
        lid = self._id()
        names = self.func[-1][1]
        targets = assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        body_names = [n for n in assigned(node.body) if n not in targets]
        node.iter = self.visit(node.iter)
        body = flatten([self.visit(s) for s in node.body])
        orelse = flatten([self.visit(s) for s in node.orelse])
        v = '_L_' + lid.split('.')[-1].replace('#', '_')
        pre = [ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Attribute(ast.Name('_rt_', ast.Load()), 'for_begin', ast.Load()),
               [ast.Constant(lid), node.iter, self._getters(names), ast.Constant(tuple(body_names)), ast.Constant(tuple(targets))], []))]
        if body_names:
            pre.append(ast.If(ast.Attribute(ast.Name(v, ast.Load()), 'sym', ast.Load()), [ast.Assign([ast.Tuple(
                [ast.Name(n, ast.Store()) for n in body_names], ast.Store())],
                ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'havoc', ast.Load()), [], []))], []))
        else:
            pre.append(ast.If(ast.Attribute(ast.Name(v, ast.Load()), 'sym', ast.Load()), [ast.Expr(
                ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'havoc', ast.Load()), [], []))], []))
        return pre + [ast.For(node.target, ast.Name(v, ast.Load()), body, orelse, lineno=node.lineno)]

    def visit_While(self, node):
        if not self._infunc():
            return node
        lid = self._id()
        names = self.func[-1][1]
        body_names = assigned(node.body)
        test = self.visit(node.test)
        body = flatten([self.visit(s) for s in node.body])
        orelse = flatten([self.visit(s) for s in node.orelse])
        v = '_L_' + lid.split('.')[-1].replace('#', '_')
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=copy.deepcopy(test))
        pre = [ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Attribute(ast.Name('_rt_', ast.Load()), 'while_begin', ast.Load()),
               [ast.Constant(lid), lam, self._getters(names), ast.Constant(tuple(body_names))], []))]
        tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in body_names], ast.Store())
        call = ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'havoc', ast.Load()), [], [])
        pre.append(ast.If(ast.Attribute(ast.Name(v, ast.Load()), 'sym', ast.Load()),
                          [ast.Assign([tgt], call) if body_names else ast.Expr(call)], []))
        head = ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'head', ast.Load()), [], [])
        return pre + [ast.While(ast.BoolOp(ast.And(), [head, test]), body, orelse, lineno=node.lineno)]


class Comps(ast.NodeTransformer):
    """Comprehensions with one generator"""
    def _comp(self, node, kind, elt):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(node)):
            return node
        pname = '_item_'

        def lam(body):
            # lambda __item: (lambda T...: body) via a nested comprehension over a singleton, which binds any target
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(pname)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=ast.Subscript(ast.ListComp(elt=body, generators=[ast.comprehension(
                                  target=g.target, iter=ast.List([ast.Name(pname, ast.Load())], ast.Load()), ifs=[], is_async=0)]), ast.Constant(0), ast.Load()))
        call = ast.Call(ast.Attribute(ast.Name('_rt_', ast.Load()), 'comp', ast.Load()),
                        [ast.Constant(kind), g.iter, lam(elt), ast.List([lam(i) for i in g.ifs], ast.Load())], [])
        # `sym if symbolic else the original comprehension` keeps the semantics for ordinary iterables
        return call

    def visit_ListComp(self, node): return self._comp(node, 'list', node.elt)
    def visit_SetComp(self, node): return self._comp(node, 'set', node.elt)
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen', node.elt)
    def visit_DictComp(self, node): return self._comp(node, 'dict', ast.Tuple([node.key, node.value], ast.Load()))


def flatten(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


class Flat(ast.NodeTransformer):
    pass


def transform(source, filename, glue=False):
    tree = ast.parse(source, filename)
    if glue:
        from .transform_glue import Glue, Strings
        tree = Strings().visit(Glue().visit(tree))
    t = Loops()
    tree = t.visit(tree)
    tree = Comps().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
