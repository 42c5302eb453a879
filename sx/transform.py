"""AST rewriting applied to the code under test (string-symbolic mode only adds to it)."""
import ast


def helpers():
    from . import strs

    return {
        "_sx_fstr_": strs.fstr,
        "_sx_mod_": strs.mod,
        "_sx_in_": strs.contains,
        "_sx_str_": strs.to_str,
        "_sx_int_": strs.to_int,
        "_sx_float_": strs.to_float,
        "_sx_bool_": strs.to_bool,
        "_sx_type_": strs.type_of,
        "_sx_strns_": strs.STR,
        "_sx_set_": strs.mk_set,
        "_sx_frozenset_": strs.mk_frozenset,
        "_sx_h_": strs.HStr,
        "_sx_b_": strs.literal_bytes,
        "_sx_bytes_": strs.to_bytes,
    }


class _Common(ast.NodeTransformer):
    """Calls of the class-like built-ins int/float/bool/str become proxy-aware conversions."""

    CONV = {"str": "_sx_str_", "int": "_sx_int_", "float": "_sx_float_", "bool": "_sx_bool_",
            "type": "_sx_type_", "bytes": "_sx_bytes_", "set": "_sx_set_", "frozenset": "_sx_frozenset_"}

    def __init__(self, strings):
        self.strings = strings

    # annotations are left alone
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def _body(self, body):
        out = []
        for i, st in enumerate(body):
            if (
                i == 0
                and isinstance(st, ast.Expr)
                and isinstance(st.value, ast.Constant)
                and isinstance(st.value.value, str)
            ):
                out.append(st)
                continue
            r = self.visit(st)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Module(self, n):
        n.body = self._body(n.body)
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self._body(n.body)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = self._body(n.body)
        return n

    def visit_Assign(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name) and t.id in ("__slots__", "__all__"):
                return n
        if (
            isinstance(n.value, ast.Call)
            and isinstance(n.value.func, ast.Name)
            and n.value.func.id in ("TypeVar", "NewType", "namedtuple")
        ):
            return n
        return self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("cast",):
            n.args = n.args[:1] + [self.visit(a) for a in n.args[1:]]
            return n
        self.generic_visit(n)
        f = n.func
        if (
            self.strings
            and isinstance(f, ast.Attribute)
            and isinstance(f.value, ast.Constant)
            and isinstance(f.value.value, bytes)
        ):
            f.value = ast.copy_location(
                ast.Call(func=ast.Name(id="_sx_b_", ctx=ast.Load()), args=[f.value], keywords=[]),
                f.value,
            )
        if isinstance(n.func, ast.Name) and n.func.id in self.CONV:
            n.func = ast.copy_location(
                ast.Name(id=self.CONV[n.func.id], ctx=ast.Load()), n.func
            )
        if isinstance(n.func, ast.Name) and n.func.id in ("map", "filter") and n.args:
            a = n.args[0]
            if isinstance(a, ast.Name) and a.id in self.CONV:
                n.args[0] = ast.copy_location(
                    ast.Name(id=self.CONV[a.id], ctx=ast.Load()), a
                )
        return n

    def visit_Attribute(self, n):
        if (
            isinstance(n.value, ast.Name)
            and n.value.id == "str"
            and isinstance(n.ctx, ast.Load)
            and not n.attr.startswith("__")
        ):
            n.value = ast.copy_location(ast.Name(id="_sx_strns_", ctx=ast.Load()), n.value)
            return n
        return self.generic_visit(n)

    def visit_keyword(self, n):
        n = self.generic_visit(n)
        if n.arg == "key" and isinstance(n.value, ast.Name) and n.value.id in self.CONV:
            n.value = ast.copy_location(
                ast.Name(id=self.CONV[n.value.id], ctx=ast.Load()), n.value
            )
        return n

    def visit_Subscript(self, n):
        # typing subscripts hold forward references
        if isinstance(n.value, ast.Name) and n.value.id in (
            "List", "Dict", "Optional", "Tuple", "Union", "Iterable", "Iterator", "Mapping",
            "Sequence", "Type", "Callable", "Generic", "Set", "Collection", "Container",
            "ImmutableSet", "ImmutableDict", "ImmutableSetMultiDict", "Any", "MutableMapping",
            "Literal", "Protocol", "ContextManager", "AbstractContextManager",
        ):
            return n
        return self.generic_visit(n)

    def visit_Constant(self, n):
        if self.strings and isinstance(n.value, str):
            return ast.copy_location(
                ast.Call(
                    func=ast.Name(id="_sx_h_", ctx=ast.Load()),
                    args=[ast.Constant(value=n.value)],
                    keywords=[],
                ),
                n,
            )
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Constant(value=v.value))
            else:
                spec = (
                    ast.Constant(value=None)
                    if v.format_spec is None
                    else self.visit_JoinedStr(v.format_spec)
                )
                parts.append(
                    ast.Tuple(
                        elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec],
                        ctx=ast.Load(),
                    )
                )
        return ast.copy_location(
            ast.Call(
                func=ast.Name(id="_sx_fstr_", ctx=ast.Load()), args=parts, keywords=[]
            ),
            n,
        )

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(
                ast.Call(
                    func=ast.Name(id="_sx_mod_", ctx=ast.Load()),
                    args=[n.left, n.right],
                    keywords=[],
                ),
                n,
            )
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            call = ast.copy_location(
                ast.Call(
                    func=ast.Name(id="_sx_in_", ctx=ast.Load()),
                    args=[n.left, n.comparators[0]],
                    keywords=[],
                ),
                n,
            )
            if isinstance(n.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=call), n)
            return call
        return n


def transform(tree, strings, constants=True):
    tree = _Common(strings and constants).visit(tree)
    ast.fix_missing_locations(tree)
    return tree
