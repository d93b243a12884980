"""refactor.py KIND REPO: mechanical behaviour-preserving edits of every source file of a scratch copy (robustness tests)
kinds: helper (bodies moved into helpers), while (range loops as while loops), temps (operands into temporaries),
       invert (if/else swapped), append (comprehensions as loops), rename (locals renamed)"""
import ast, glob, os, sys
kind, repo = sys.argv[1:3]
N = [0]


def fresh(p='tmp'):
    N[0] += 1
    return '%s_%d' % (p, N[0])


def name(n, ctx=ast.Load):
    return ast.Name(n, ctx())


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class While(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and not n.orelse \
                and isinstance(n.target, ast.Name) and not any(has(s, ast.Continue) for s in n.body):
            i, e = fresh('i'), fresh('end')
            return [ast.Assign([name(e, ast.Store)], n.iter.args[0]), ast.Assign([name(i, ast.Store)], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]),
                              [ast.Assign([n.target], name(i))] + n.body + [ast.AugAssign(name(i, ast.Store), ast.Add(), ast.Constant(1))], [])]
        return n


class Enum(ast.NodeTransformer):
    """for i in range(len(x)) style: range(n) -> enumerate(range(n)); for x in xs -> for _, x in enumerate(xs)"""
    def visit_For(self, n):
        self.generic_visit(n)
        return ast.For(ast.Tuple([name(fresh('k'), ast.Store), n.target], ast.Store()), ast.Call(name('enumerate'), [n.iter], []), n.body, n.orelse)


class Temps(ast.NodeTransformer):
    def stmt(self, n):
        pre = []
        me = self

        class T(ast.NodeTransformer):
            def visit_BinOp(self, b):
                self.generic_visit(b)
                t = fresh()
                pre.append(ast.Assign([name(t, ast.Store)], b.left))
                b.left = name(t)
                return b

            def visit_Call(self, c):
                self.generic_visit(c)
                for k, a in enumerate(c.args):
                    if isinstance(a, (ast.BinOp, ast.Call)):
                        t = fresh()
                        pre.append(ast.Assign([name(t, ast.Store)], a))
                        c.args[k] = name(t)
                return c

            def keep(self, x):
                return x
            visit_Lambda = visit_ListComp = visit_DictComp = visit_GeneratorExp = visit_SetComp = visit_IfExp = visit_BoolOp = visit_Compare = keep
        n.value = T().visit(n.value)
        return pre + [n]

    def visit_Assign(self, n):
        return self.stmt(n)

    def visit_Return(self, n):
        if n.value is None:
            return n
        r = self.stmt(n)
        t = fresh('result')
        return r[:-1] + [ast.Assign([name(t, ast.Store)], n.value), ast.Return(name(t))]


class Append(ast.NodeTransformer):
    def visit_Assign(self, n):
        pre = []
        if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
            g = n.value.generators[0]
            t = fresh('items')
            body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [n.value.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([name(t, ast.Store)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign(n.targets, name(t))]
        return n


def helper(tree):
    """methods and functions delegate to a helper with the same body"""
    def one(f, cls):
        if f.name.startswith('__') or has(f, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global) or any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(f)):
            return [f]
        a = f.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            return [f]
        names = [x.arg for x in a.args]
        deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?') for d in f.decorator_list]
        if any(d not in ('staticmethod', 'classmethod') for d in deco):
            return [f]
        h = '_' + f.name.lstrip('_') + '_body'
        body = f.body
        g = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body, list(f.decorator_list), None, None)
        if cls is None:
            call = ast.Call(name(h), [name(x) for x in names], [])
        elif 'staticmethod' in deco:
            call = ast.Call(ast.Attribute(name(cls), h, ast.Load()), [name(x) for x in names], [])
        else:
            call = ast.Call(ast.Attribute(name(names[0]), h, ast.Load()), [name(x) for x in names[1:]], [])
        f.body = [ast.Return(call)]
        return [g, f]
    out = []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            out += one(s, None)
        elif isinstance(s, ast.ClassDef):
            b = []
            for m in s.body:
                b += one(m, s.name) if isinstance(m, ast.FunctionDef) else [m]
            s.body = b
            out.append(s)
        else:
            out.append(s)
    tree.body = out
    return tree


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        if has(f, ast.Nonlocal, ast.Global, ast.Lambda) or any(isinstance(x, ast.FunctionDef) and x is not f for x in ast.walk(f)):
            return f
        args = {x.arg for x in f.args.args}
        st = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in st:
                x.id = x.id + '_'
        return f


for p in glob.glob(repo + '/resippy/**/*.py', recursive=True):
    s = open(p, newline='').read()
    t = ast.parse(s)
    if kind == 'helper':
        t = helper(t)
    else:
        t = {'invert': Invert, 'while': While, 'temps': Temps, 'append': Append, 'rename': Rename, 'enum': Enum}[kind]().visit(t)
    ast.fix_missing_locations(t)
    open(p, 'w').write(ast.unparse(t) + '\n')
