"""Rewrite the sources of a copy of /repo without changing what they do, to see that the checks stay quiet (not part of any check).

python3 tools/refactor.py COPY VARIANT    then run the checks with COPY bound over /repo

VARIANT: invert (if/else turned round, comparisons turned round, results through a variable, functions split in two),
         nest (conditions nested, products and sums turned round, loops over lists), recip (divisions by constants as products)"""
import ast
import copy
import os
import sys


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP:
            return ast.Compare(left=n.comparators[0], ops=[self.FLIP[type(n.ops[0])]()], comparators=[n.left])
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)):
            return ast.Assign(targets=[n.target], value=ast.BinOp(left=ast.Name(id=n.target.id, ctx=ast.Load()), op=n.op, right=n.value))
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            return [ast.Assign(targets=[ast.Name(id='outcome_', ctx=ast.Store())], value=n.value), ast.Return(value=ast.Name(id='outcome_', ctx=ast.Load()))]
        return n

    def split(self, body, method):
        out = []
        for n in body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith('__') and not n.decorator_list and not n.args.vararg and not n.args.kwarg and not n.args.kwonlyargs:
                names = [a.arg for a in n.args.args]
                inner = copy.deepcopy(n)
                inner.name = '_do_' + n.name
                call = ast.Call(func=ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=inner.name, ctx=ast.Load()) if method else ast.Name(id=inner.name, ctx=ast.Load()),
                                args=[ast.Name(id=a, ctx=ast.Load()) for a in (names[1:] if method else names)], keywords=[])
                if method and names[:1] != ['self']:
                    out.append(n)
                    continue
                out += [inner, ast.FunctionDef(name=n.name, args=n.args, body=[ast.Return(value=call)], decorator_list=[], lineno=1)]
            else:
                out.append(n)
        return out

    def visit_Module(self, n):
        self.generic_visit(n)
        n.body = self.split(n.body, False)
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        n.body = self.split(n.body, True)
        return n


class Nest(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(test=v, body=body, orelse=[])]
            return body[0]
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        num = lambda x: isinstance(x, ast.Constant) and isinstance(x.value, (int, float))
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(left=n.right, op=n.op, right=n.left)
        if isinstance(n.op, ast.Add) and (num(n.left) or num(n.right)):
            return ast.BinOp(left=n.right, op=n.op, right=n.left)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'enumerate'):
            n.iter = ast.Call(func=ast.Name(id='list', ctx=ast.Load()), args=[n.iter], keywords=[])
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            return ast.BinOp(left=ast.Constant(-1.0), op=ast.Mult(), right=n.operand)
        return n


class Recip(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, float):
            return ast.BinOp(left=n.left, op=ast.Mult(), right=ast.Constant(1.0 / n.right.value))
        return n


def main(root, variant):
    for f in sorted(os.listdir(root)):
        if not f.endswith('.py') or f.startswith('test_'):
            continue
        p = os.path.join(root, f)
        src = open(p).read()
        t = ast.parse(src.replace('\\N', '\\\\N') if 'u"' not in src else src.replace('\\N', '\\\\N'))
        t = {'invert': Invert, 'nest': Nest, 'recip': Recip}[variant]().visit(t)
        ast.fix_missing_locations(t)
        open(p, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
