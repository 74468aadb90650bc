"""Further rewriting for modules verified over symbolic objects: displays build containers the verifier can forget, identity tests
of symbolic objects compare the objects and not their proxies, generator functions collect what they yield (they are run to
their end: laziness is not represented)."""
import ast


class Glue(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def rt(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name('_rt_', ast.Load()), name, ast.Load()), list(args), [])

    def visit_FunctionDef(self, node):
        deco, ann = node.decorator_list, node.args
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        flat = []
        for s in node.body:
            flat.extend(s if isinstance(s, list) else [s])
        node.body = flat
        node.returns = None
        if is_generator(node) and not any('contextmanager' in ast.dump(d) for d in deco):     # (context managers stay generators)
            node.body = [Yields().visit(s) for s in node.body]
            node.body.insert(0, ast.Assign([ast.Name('_acc_', ast.Store())], self.rt('acc')))
            node.body.append(ast.Return(ast.Name('_acc_', ast.Load())))
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node if not self.depth else ast.Pass()
        if self.depth:
            return ast.Assign([node.target], self.visit(node.value))
        return self.generic_visit(node)

    def visit_List(self, node):
        self.generic_visit(node)
        return self.rt('mklist', node) if self.depth and isinstance(node.ctx, ast.Load) else node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or any(k is None for k in node.keys):
            return node
        return self.rt('mkdict', ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.rt('mkset', ast.List(node.elts, ast.Load())) if self.depth else node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            return self.rt('is_' if isinstance(node.ops[0], ast.Is) else 'isnot_', node.left, node.comparators[0])
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = self.rt('in_', node.left, node.comparators[0])
            return call if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), call)
        return node


class Strings(ast.NodeTransformer):
    """'.'.join(...) and f-strings may have symbolic parts"""
    depth = 0

    def rt(self, name, *args): return ast.Call(ast.Attribute(ast.Name('_rt_', ast.Load()), name, ast.Load()), list(args), [])

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and len(node.args) == 1 and not node.keywords:
            return self.rt('strjoin', f.value, node.args[0])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return self.rt('strmod', node.left, node.right)
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.UnaryOp) and isinstance(node.test.op, ast.Not):
            node.test = self.rt('not_', node.test.operand)
        return node

    def visit_JoinedStr(self, node):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion not in (-1, 115)) for v in node.values):
            return node
        self.generic_visit(node)
        return self.rt('fstr', ast.List([v.value if isinstance(v, ast.FormattedValue) else v for v in node.values], ast.Load()))


class YieldScan(ast.NodeVisitor):
    found = False
    def visit_Yield(self, n): self.found = True
    visit_YieldFrom = visit_Yield
    def visit_FunctionDef(self, n): pass
    visit_Lambda = visit_FunctionDef


def is_generator(node):
    s = YieldScan()
    for x in node.body:
        s.visit(x)
    return s.found


class Yields(ast.NodeTransformer):
    def acc(self, name, v):
        return ast.Call(ast.Attribute(ast.Name('_acc_', ast.Load()), name, ast.Load()), [v], [])

    def visit_Yield(self, n): return self.acc('append', n.value or ast.Constant(None))
    def visit_YieldFrom(self, n): return self.acc('extend', n.value)
    def visit_Return(self, n): return ast.Return(ast.Name('_acc_', ast.Load()))
    def visit_FunctionDef(self, n): return n
    visit_Lambda = visit_FunctionDef
