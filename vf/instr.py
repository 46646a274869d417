"""Instrumented import: the current source of the code under test is rewritten on the AST level so that
operations that CPython performs in C on exact types (calls of builtins, %-formatting, f-strings, dict
displays, `in`, subscripts) go through the symbolic runtime.  Nothing else changes."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

NOWRAP = {'super', 'locals', 'globals', 'vars', 'dir', '__import__', 'eval', 'exec', 'breakpoint'}


class Instr(ast.NodeTransformer):
    def __init__(self, modname, threads=False, attrs=False):
        self.modname = modname
        self.cls = []
        self.threads = threads
        self.fn = []
        self.uid = 0

    def _n(self, name, node):
        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)

    def _call(self, name, args, node, keywords=()):
        return ast.copy_location(ast.Call(func=self._n(name, node), args=list(args), keywords=list(keywords)), node)

    def _const(self, v, node):
        return ast.copy_location(ast.Constant(value=v), node)

    def _site(self, node):
        return self._const('%s:%d:%d:%d:%d' % (self.modname, node.lineno, node.col_offset,
                                               node.end_lineno, node.end_col_offset), node)

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and self.cls:
            c = self.cls[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, name)
        return name

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.cls.append(node.name)
        self.fn.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.fn.pop()
        self.cls.pop()
        return node

    def _flat(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.fn.append(node.name)
        qual = '.'.join(self.fn)
        body = self._flat(node.body)
        enter = ast.Expr(value=self._call('_vf_enter', [self._const('%s.%s' % (self.modname, qual), node)], node))
        ast.copy_location(enter, node)
        pos = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        body.insert(pos, enter)
        node.body = body
        self.fn.pop()
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        # annotations are left alone
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ImportFrom(self, node):
        return node

    # ------------------------------------------------------------------ expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in NOWRAP:
                node.args = [self.visit(a) for a in node.args]
                node.keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
                return node
            fn = '_vf_c'
            args = [f]
            if self.threads:
                fn, args = '_vf_ct', [self._site(node), f]
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                node.args = [self.visit(a) for a in node.args]
                for k in node.keywords:
                    k.value = self.visit(k.value)
                f.value.args = [self.visit(a) for a in f.value.args]
                return node
            fn = '_vf_m'
            args = [self.visit(f.value), self._const(self.mangle(f.attr), f)]
            if self.threads:
                fn = '_vf_mt'
                args = [self._site(node)] + args
        else:
            fn = '_vf_c'
            args = [self.visit(f)]
            if self.threads:
                fn, args = '_vf_ct', [self._site(node)] + args
        args += [self.visit(a) for a in node.args]
        kws = [ast.copy_location(ast.keyword(arg=k.arg, value=self.visit(k.value)), node) for k in node.keywords]
        return self._call(fn, args, node, kws)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('_vf_mod', [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            r = node.comparators[0]
            if self.threads and isinstance(op, (ast.In, ast.NotIn)):
                return self._call('_vf_int' if isinstance(op, ast.In) else '_vf_notint', [self._site(node), node.left, r], node)
            if isinstance(op, ast.In):
                return self._call('_vf_in', [node.left, r], node)
            if isinstance(op, ast.NotIn):
                return self._call('_vf_notin', [node.left, r], node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
                return self._call('_vf_is' if isinstance(op, ast.Is) else '_vf_isnot', [node.left, r], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                s = self._call('_vf_slice', [x if x is not None else self._const(None, node)
                                              for x in (s.lower, s.upper, s.step)], node)
            if self.threads:
                return self._call('_vf_git', [self._site(node), node.value, s], node)
            return self._call('_vf_gi', [node.value, s], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else self._const('', node)
                conv = chr(v.conversion) if v.conversion != -1 else ''
                parts.append(ast.copy_location(ast.Tuple(
                    elts=[self.visit(v.value), self._const(conv, node), spec], ctx=ast.Load()), node))
        return self._call('_vf_fstr', parts, node)

    def visit_Dict(self, node):
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                e = [self.visit(v)]
            else:
                e = [self.visit(k), self.visit(v)]
            elts.append(ast.copy_location(ast.Tuple(elts=e, ctx=ast.Load()), node))
        return self._call('_vf_dict', [ast.copy_location(ast.List(elts=elts, ctx=ast.Load()), node)], node)

    def visit_DictComp(self, node):
        site = self._site(node)
        self.generic_visit(node)
        if self.threads:
            for g in node.generators:
                g.iter = self._call('_vf_it', [site, g.iter], node)
        lc = ast.copy_location(ast.ListComp(
            elt=ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node),
            generators=node.generators), node)
        return self._call('_vf_dict', [lc], node)

    def visit_For(self, node):
        site = self._site(node)
        self.generic_visit(node)
        if self.threads:
            node.iter = self._call('_vf_it', [site, node.iter], node)
        return node

    def _comp(self, node):
        site = self._site(node)
        self.generic_visit(node)
        if self.threads:
            for g in node.generators:
                if not g.is_async:
                    g.iter = self._call('_vf_it', [site, g.iter], node)
        return node
    visit_ListComp = visit_SetComp = visit_GeneratorExp = _comp

    def visit_Attribute(self, node):
        if self.threads and '.thrift_gen' not in self.modname and isinstance(node.ctx, ast.Store) and (not self.fn or self.fn[-1] != '__init__'):
            from . import sched
            sched.MUT.add(self.mangle(node.attr))
        self.generic_visit(node)
        if self.threads and isinstance(node.ctx, ast.Load):
            return self._call('_vf_ga', [self._site(node), node.value,
                                          self._const(self.mangle(node.attr), node)], node)
        return node

    # ------------------------------------------------------------------- statements
    def visit_AugAssign(self, node):
        tgt = node.target
        if isinstance(tgt, ast.Attribute):
            # o = obj; v = o.attr; v = v op rhs; o.attr = v
            self.uid += 1
            o, v = '_vf_o%d' % self.uid, '_vf_v%d' % self.uid
            L = lambda n: ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)
            S = lambda n: ast.copy_location(ast.Name(id=n, ctx=ast.Store()), node)
            load = ast.copy_location(ast.Attribute(value=L(o), attr=tgt.attr, ctx=ast.Load()), tgt)
            if self.threads:
                load = self._call('_vf_ga', [self._site(tgt), L(o), self._const(self.mangle(tgt.attr), node)], node)
            stmts = [
                ast.copy_location(ast.Assign(targets=[S(o)], value=self.visit(tgt.value)), node),
                ast.copy_location(ast.Assign(targets=[S(v)], value=load), node),
                ast.copy_location(ast.Assign(targets=[S(v)], value=self._aug(L(v), node)), node),
            ]
            stmts.extend(self._store_attr(o, tgt, L(v), node))
            return stmts
        if isinstance(tgt, ast.Name):
            if isinstance(node.op, (ast.Add, ast.Mod)):
                new = ast.copy_location(ast.Name(id=tgt.id, ctx=ast.Load()), node)
                return ast.copy_location(ast.Assign(targets=[tgt], value=self._aug(new, node)), node)
            node.value = self.visit(node.value)
            return node
        # subscript target
        if isinstance(tgt, ast.Subscript):
            self.uid += 1
            o, k, v = '_vf_o%d' % self.uid, '_vf_k%d' % self.uid, '_vf_v%d' % self.uid
            L = lambda n: ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)
            S = lambda n: ast.copy_location(ast.Name(id=n, ctx=ast.Store()), node)
            sl = tgt.slice
            if isinstance(sl, ast.Slice):
                self.generic_visit(node)
                return node
            get = self._call('_vf_git', [self._site(tgt), L(o), L(k)], node) if self.threads else \
                self._call('_vf_gi', [L(o), L(k)], node)
            stmts = [
                ast.copy_location(ast.Assign(targets=[S(o)], value=self.visit(tgt.value)), node),
                ast.copy_location(ast.Assign(targets=[S(k)], value=self.visit(sl)), node),
                ast.copy_location(ast.Assign(targets=[S(v)], value=get), node),
                ast.copy_location(ast.Assign(targets=[S(v)], value=self._aug(L(v), node)), node),
            ]
            if self.threads:
                stmts.append(ast.copy_location(ast.Expr(value=self._call(
                    '_vf_pt', [self._site(tgt), self._const('setitem', node), L(o), L(k)], node)), node))
            stmts.append(ast.copy_location(ast.Assign(targets=[ast.copy_location(
                ast.Subscript(value=L(o), slice=L(k), ctx=ast.Store()), node)], value=L(v)), node))
            return stmts
        self.generic_visit(node)
        return node

    def _aug(self, cur, node):
        rhs = self.visit(node.value)
        if isinstance(node.op, ast.Add):
            return self._call('_vf_iadd', [cur, rhs], node)
        if isinstance(node.op, ast.Mod):
            return self._call('_vf_mod', [cur, rhs], node)
        return ast.copy_location(ast.BinOp(left=cur, op=node.op, right=rhs), node)

    def _store_attr(self, oname, tgt, value, node):
        if self.threads and '.thrift_gen' not in self.modname and (not self.fn or self.fn[-1] != '__init__'):
            from . import sched
            sched.MUT.add(self.mangle(tgt.attr))
        L = lambda n: ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)
        out = []
        if self.threads:
            out.append(ast.copy_location(ast.Expr(value=self._call(
                '_vf_pt', [self._site(tgt), self._const('store', node), L(oname),
                            self._const(self.mangle(tgt.attr), node)], node)), node))
        out.append(ast.copy_location(ast.Assign(targets=[ast.copy_location(
            ast.Attribute(value=L(oname), attr=tgt.attr, ctx=ast.Store()), tgt)], value=value), node))
        return out

    def visit_Assign(self, node):
        if self.threads and len(node.targets) == 1:
            t = node.targets[0]
            L = lambda n: ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)
            S = lambda n: ast.copy_location(ast.Name(id=n, ctx=ast.Store()), node)
            if isinstance(t, ast.Attribute):
                self.uid += 1
                o, v = '_vf_o%d' % self.uid, '_vf_v%d' % self.uid
                return [ast.copy_location(ast.Assign(targets=[S(v)], value=self.visit(node.value)), node),
                        ast.copy_location(ast.Assign(targets=[S(o)], value=self.visit(t.value)), node)] + \
                    self._store_attr(o, t, L(v), node)
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                self.uid += 1
                o, k, v = '_vf_o%d' % self.uid, '_vf_k%d' % self.uid, '_vf_v%d' % self.uid
                return [
                    ast.copy_location(ast.Assign(targets=[S(v)], value=self.visit(node.value)), node),
                    ast.copy_location(ast.Assign(targets=[S(o)], value=self.visit(t.value)), node),
                    ast.copy_location(ast.Assign(targets=[S(k)], value=self.visit(t.slice)), node),
                    ast.copy_location(ast.Expr(value=self._call(
                        '_vf_pt', [self._site(t), self._const('setitem', node), L(o), L(k)], node)), node),
                    ast.copy_location(ast.Assign(targets=[ast.copy_location(
                        ast.Subscript(value=L(o), slice=L(k), ctx=ast.Store()), node)], value=L(v)), node)]
        self.generic_visit(node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException')
        if broad:
            node.body.insert(0, ast.copy_location(ast.Expr(value=self._call('_vf_reraise', [], node)), node))
        return node

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if field in ('annotation', 'returns'):
                continue
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if not isinstance(v, ast.AST):
                            new.extend(v)
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                n = self.visit(old)
                if n is None:
                    delattr(node, field)
                else:
                    setattr(node, field, n)
        return node


def runtime_names(threads):
    from . import models, core, sched
    import sys as _sys

    def enter(name):
        core.FUNCS[name] = core.FUNCS.get(name, 0) + 1

    def reraise():
        e = _sys.exc_info()[1]
        if isinstance(e, (core.Control, sched.Abort, sched.Deadlock)):
            raise e

    def notin(x, c):
        from .values import sym_not
        return sym_not(models.contains(x, c))

    def isnot(a, b):
        return not models.is_(a, b)

    ns = {
        '_vf_c': models.call, '_vf_m': models.mcall, '_vf_mod': models.mod, '_vf_in': models.contains,
        '_vf_notin': notin, '_vf_is': models.is_, '_vf_isnot': isnot, '_vf_slice': slice,
        '_vf_gi': models.getitem, '_vf_fstr': models.fstr, '_vf_dict': models.mk_dict,
        '_vf_iadd': models.iadd, '_vf_enter': enter, '_vf_reraise': reraise,
    }
    if threads:
        ns.update(sched.runtime_names())
    return ns


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Imports the selected modules in instrumented form."""

    def __init__(self, prefixes, exclude=(), threads_prefixes=()):
        self.prefixes = prefixes
        self.exclude = exclude
        self.tp = threads_prefixes
        self.sources = {}

    def _match(self, name, ps):
        return any(name == p or name.startswith(p + '.') for p in ps)

    def find_spec(self, name, path=None, target=None):
        if not self._match(name, self.prefixes) or self._match(name, self.exclude):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or spec.origin is None or not spec.origin.endswith('.py'):
            return None
        new = importlib.util.spec_from_file_location(
            name, spec.origin, loader=self, submodule_search_locations=spec.submodule_search_locations)
        return new

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        path = module.__spec__.origin
        with open(path, encoding='utf-8') as f:
            src = f.read()
        threads = self._match(name, self.tp)
        code = compile_instr(src, path, name, threads)
        self.sources[name] = path
        module.__dict__.update(runtime_names(threads))
        exec(code, module.__dict__)


def compile_instr(src, path, name, threads=False):
    tree = ast.parse(src, path)
    tree = Instr(name, threads).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)
