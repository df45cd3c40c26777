"""A small Python 2 front end: runs the project's Python 2 sources, unmodified,
on the installed Python 3.  Source text is translated (print and exec
statements, old-style except/raise, tabs) and the AST is rewritten where the two
languages mean different things (integer division, list-returning builtins)."""
import ast, io, os, re, tokenize, builtins, hashlib, types
import numpy as np

# ---------------------------------------------------------------- text -> py3
def _logical_lines(src):
    """Yield (first_line, last_line, tokens) of each logical line (0-based)."""
    toks, cur, out = [], [], []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type in (tokenize.INDENT, tokenize.DEDENT, tokenize.COMMENT, tokenize.NL, tokenize.ENDMARKER):
            continue
        if t.type == tokenize.NEWLINE:
            if cur: out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur: out.append(cur)
    return out

def to_py3_text(src):
    src = "\n".join(l.expandtabs(8) for l in src.split("\n"))
    src = src.replace("\r", "")
    if not src.endswith("\n"): src += "\n"
    src = re.sub(r"(?<![\w.\"'])(0[0-7]+)(?![\w.])", lambda m: "0o" + m.group(1).lstrip("0") if m.group(1).strip("0") else "0", src) if False else src
    lines = src.split("\n")
    edits = []  # (row, col, row2, col2, text)
    for toks in _logical_lines(src):
        # split into simple statements at ';' and after a block-opening ':'
        stmts, cur, depth, lam = [], [], 0, 0
        compound = toks[0].string in ("if", "elif", "else", "for", "while", "try", "except", "finally", "with", "def", "class")
        opened = False
        for t in toks:
            if t.string in "([{" and t.type == tokenize.OP: depth += 1
            if t.string in ")]}" and t.type == tokenize.OP: depth -= 1
            if t.string == "lambda" and depth == 0: lam += 1
            if depth == 0 and t.type == tokenize.OP and t.string == ";":
                stmts.append(cur); cur = []; continue
            cur.append(t)
            if depth == 0 and t.type == tokenize.OP and t.string == ":" and compound and not opened:
                if lam: lam -= 1
                else:
                    opened = True; stmts.append(cur); cur = []
        if cur: stmts.append(cur)
        for s in stmts:
            if not s: continue
            h = s[0]
            if h.type != tokenize.NAME: continue
            a, b = h.start, s[-1].end
            if h.string == "print":
                rest = s[1:]
                if not rest:
                    edits.append((h.start, h.end, "print()")); continue
                if rest[0].string == ">>":
                    # print >>f, args
                    d = 0; k = len(rest)
                    for i, t in enumerate(rest):
                        if t.string in "([{" and t.type == tokenize.OP: d += 1
                        if t.string in ")]}" and t.type == tokenize.OP: d -= 1
                        if d == 0 and t.string == ",": k = i; break
                    edits.append((h.start, rest[0].end, "print_to("))
                    edits.append((b, b, ")")); continue
                trail = rest[-1].string == "," and rest[-1].type == tokenize.OP
                # a fully parenthesised tuple prints the same for our purposes
                edits.append((h.start, h.end, "print("))
                if trail: edits.append((rest[-1].start, rest[-1].end, ', end=" ")'))
                else: edits.append((b, b, ")"))
            elif h.string == "except":
                d = 0
                for t in s[1:]:
                    if t.string in "([{" and t.type == tokenize.OP: d += 1
                    if t.string in ")]}" and t.type == tokenize.OP: d -= 1
                    if d == 0 and t.type == tokenize.OP and t.string == ",":
                        edits.append((t.start, t.end, " as ")); break
            elif h.string == "raise":
                d = 0; c = None
                for t in s[1:]:
                    if t.string in "([{" and t.type == tokenize.OP: d += 1
                    if t.string in ")]}" and t.type == tokenize.OP: d -= 1
                    if d == 0 and t.type == tokenize.OP and t.string == ",": c = t; break
                if c is not None:
                    edits.append((c.start, c.end, "("))
                    edits.append((b, b, ")"))
            elif h.string == "exec" and len(s) > 1 and s[1].string != "(":
                edits.append((h.start, h.end, "exec(")); edits.append((b, b, ")"))
    for (r0, c0), (r1, c1), text in sorted(edits, key=lambda e: (e[0], e[1]), reverse=True):
        assert r0 == r1, "multi-line token edit"
        l = lines[r0 - 1]
        lines[r0 - 1] = l[:c0] + text + l[c1:]
    out = "\n".join(lines)
    out = re.sub(r"<>", "!=", out)
    return out

# ------------------------------------------------------------------ ast passes
class _Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__py2_div__", ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            return ast.copy_location(ast.Assign([n.target], ast.copy_location(
                ast.Call(ast.Name("__py2_div__", ast.Load()), [load, n.value], []), n)), n)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and not n.keywords:
            if f.attr == "has_key" and len(n.args) == 1:
                return ast.copy_location(ast.Call(ast.Name("__py2_has_key__", ast.Load()), [f.value] + n.args, []), n)
            if f.attr in ("keys", "values", "items") and not n.args:
                return ast.copy_location(ast.Call(ast.Name("__py2_list__", ast.Load()), [n], []), n)
            if f.attr in ("iteritems", "iterkeys", "itervalues") and not n.args:
                f.attr = f.attr[4:]
                return n
        return n

def _div(a, b):
    ia = isinstance(a, (int, np.integer)) or (isinstance(a, np.ndarray) and a.dtype.kind in "iu")
    ib = isinstance(b, (int, np.integer)) or (isinstance(b, np.ndarray) and b.dtype.kind in "iu")
    if ia and ib: return a // b
    return a / b
def _has_key(d, k): return k in d
_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))
def _list(v): return list(v) if isinstance(v, _VIEWS) else v
def _range(*a): return list(range(*[int(x) for x in a]))
def _map(f, *its):
    if f is None: return list(zip(*its))
    return list(map(f, *its))
def _filter(f, it):
    r = [x for x in it if (f(x) if f else x)]
    return tuple(r) if isinstance(it, tuple) else "".join(r) if isinstance(it, str) else r
def _zip(*a): return list(zip(*a))

class _NodeLookup:
    pass

_cache = {}
def compile_py2(path, filename=None, repo_text=None):
    """Compile a Python 2 source file; cached per process by content."""
    if repo_text is None:
        with open(path, encoding="utf-8", errors="replace") as f: repo_text = f.read()
    key = (filename or path, hashlib.sha1(repo_text.encode()).hexdigest())
    if key not in _cache:
        text = to_py3_text(repo_text)
        tree = ast.parse(text, filename or path)
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _cache[key] = compile(tree, filename or path, "exec", dont_inherit=True)
    return _cache[key]

def py2_builtins(**over):
    b = dict(vars(builtins))
    b.update(__py2_div__=_div, __py2_has_key__=_has_key, __py2_list__=_list, range=_range, xrange=range, map=_map,
             filter=_filter, zip=_zip, unicode=type("unicode", (str,), {}), long=int, raw_input=input,
             basestring=str, reduce=__import__("functools").reduce, cmp=lambda a, b: (a > b) - (a < b),
             unichr=chr, file=io.IOBase)
    b.update(over)
    return b

_np_patched = False
def patch_numpy():
    """Names and behaviours the sources expect from the numpy of their time."""
    global _np_patched
    if _np_patched: return
    _np_patched = True
    orig = np.set_printoptions
    def spo(*a, **k):
        if "threshold" in k:
            import sys
            t = k["threshold"]
            if t != t: k["threshold"] = sys.maxsize
        return orig(*a, **k)
    np.set_printoptions = spo
    for n, t in (("int", int), ("float", float), ("complex", complex), ("bool", bool), ("object", object), ("str", str)):
        if n not in np.__dict__: setattr(np, n, t)
    ol = np.linspace
    def linspace(start, stop, num=50, *a, **k): return ol(start, stop, int(num), *a, **k)
    np.linspace = linspace
    oz = np.zeros
    def zeros(shape, dtype=float, order="C", **k): return oz(shape, dtype, order[0] if isinstance(order, list) else order, **k)
    np.zeros = zeros
