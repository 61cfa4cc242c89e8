"""Source instrumentation: operations the proxies cannot intercept become calls into the runtime."""
import ast

_SKIP_CALLS = ('super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval', '__import__')


def _rt(name):
    return ast.Attribute(ast.Name('__rt__', ast.Load()), name, ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, label=None):
        self.label = label
        self.stack = []
        self.classes = []

    # calls
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP_CALLS and not (
                node.func.id == 'exec' and len(node.args) == 2):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        keywords = []
        for k in node.keywords:
            if k.arg is None:
                k = ast.keyword(None, ast.Call(_rt('kw'), [k.value], []))
            keywords.append(k)
        if isinstance(node.func, ast.Attribute):
            new = ast.Call(_rt('callm'), [node.func.value, ast.Constant(self.mangle(node.func.attr))]
                + node.args, keywords)
        else:
            new = ast.Call(_rt('call'), [node.func] + node.args, keywords)
        return ast.copy_location(new, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(_rt('mod'), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.Name(node.target.id, ast.Load())
            return ast.copy_location(ast.Assign([node.target],
                ast.Call(_rt('mod'), [load, node.value], [])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = 'contains' if isinstance(node.ops[0], ast.In) else 'not_contains'
            return ast.copy_location(
                ast.Call(_rt(name), [node.left, node.comparators[0]], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(_rt('getitem'), [node.value, _index(node.slice)],
                []), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                value = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([value, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(_rt('fstring'), [ast.List(parts, ast.Load())], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple([v], ast.Load()))
            else:
                pairs.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(ast.Call(_rt('mkdict'), pairs, []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(_rt('mkset'), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(_rt('mkset'), [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple([node.key, node.value], ast.Load())
        return ast.copy_location(
            ast.Call(_rt('dictcomp'), [ast.ListComp(pair, node.generators)], []), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            guard = ast.ExceptHandler(_rt('EngineSignal'), None, [ast.Raise(None, None)])
            node.handlers.insert(0, guard)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.classes.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        self.classes.pop()
        self.stack.pop()
        return node

    def mangle(self, name):
        if self.classes and name.startswith('__') and not name.endswith('__'):
            cls = self.classes[-1].lstrip('_')
            if cls:
                return '_%s%s' % (cls, name)
        return name

    def _function(self, node):
        self.stack.append(node.name)
        # default values and decorators are visited as part of the node
        self.generic_visit(node)
        if self.label:
            mark = ast.Expr(ast.Call(
                ast.Attribute(ast.Attribute(ast.Name('__rt__', ast.Load()), 'seen', ast.Load()),
                    'add', ast.Load()),
                [ast.Constant('%s:%s' % (self.label, '.'.join(self.stack)))], []))
            body = node.body
            at = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                    and isinstance(body[0].value.value, str):
                at = 1
            body.insert(at, mark)
        self.stack.pop()
        return node

    visit_FunctionDef = _function

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_MatchValue(self, node):
        return node


def _index(s):
    """A subscript as an expression usable as a call argument."""
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(ast.Name('slice', ast.Load()),
            [s.lower or none, s.upper or none, s.step or none], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_index(e) for e in s.elts], ast.Load())
    return s


def instrument(source, filename, label=None):
    tree = ast.parse(source, filename)
    future = [n for n in tree.body if isinstance(n, ast.ImportFrom) and n.module == '__future__']
    tree = Rewriter(label).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
