"""mutate.py mut|ref PROP [max] [file-filter]: how the check of a property answers to mutations (mut) or to behaviour-preserving rewrites
(ref) of the functions it interprets.  Works on scratch copies under /tmp; one forked process per mutant."""
import ast, copy, os, sys, random, time, json, shutil, subprocess, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import music21, z3          # noqa
REPO = os.environ.get('MREPO', '/repo')
SCR = '/tmp/w/mut/%d' % os.getpid()


def functions(pid):
    """qualified names the property's evidence lists as interpreted or under contract"""
    ev = json.load(open('/verif/evidence/%s.json' % pid))['coverage']
    return sorted(set(ev['functions_under_contract']) | set(ev['functions_interpreted']))


def locate(tree, qual):
    node = tree
    for p in qual.split('.'):
        if p == '<locals>':
            continue
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                node = n
                break
        else:
            return None
    return node if isinstance(node, ast.FunctionDef) else None


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def seg_replace(src_lines, node, text):
    """replace node's source by text"""
    l0, c0, l1, c1 = node.lineno - 1, node.col_offset, node.end_lineno - 1, node.end_col_offset
    b = [x.encode() for x in src_lines]
    head = b[l0][:c0]
    tail = b[l1][c1:]
    new = b[:l0] + [head + text.encode() + tail] + b[l1 + 1:]
    return b''.join(new).decode()


def mutants(fn):
    """(node, replacement text, label)"""
    parents = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
    for a in [fn.args]:
        skip.update(ast.walk(a))
    if fn.returns:
        skip.update(ast.walk(fn.returns))
    for n in ast.walk(fn):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = copy.deepcopy(n)
            m.ops[0] = CMP[type(n.ops[0])]()
            yield n, '(' + ast.unparse(m) + ')', 'cmp'
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield n, '(' + ast.unparse(m) + ')', 'bool'
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                yield n, '(' + (ast.unparse(m) if len(m.values) > 1 else ast.unparse(m.values[0])) + ')', 'dropcond'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, '(' + ast.unparse(n.operand) + ')', 'not'
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub):
            m = copy.deepcopy(n)
            m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            yield n, '(' + ast.unparse(m) + ')', 'arith'
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield n, str(not n.value), 'boolconst'
            elif isinstance(n.value, int):
                yield n, '(%d)' % (n.value + 1), 'int+1'
                if n.value > 0:
                    yield n, '(%d)' % (n.value - 1), 'int-1'
            elif isinstance(n.value, str) and n.value:
                yield n, repr(n.value[:-1]), 'strcut'
                if len(n.value) > 1:
                    yield n, repr(n.value[1:]), 'strcut1'
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
            yield n, 'pass', 'del'
        elif isinstance(n, ast.If):
            yield n.test, 'False', 'ifFalse'


def rewrites(fn, src_lines, rng):
    """behaviour-preserving variants of the function: (new function source, label)"""
    ind = ' ' * fn.col_offset

    def emit(f, label):
        f = ast.fix_missing_locations(f)
        return '\n'.join((ind + l if l else l) for l in ast.unparse(f).split('\n')).lstrip(), label

    class Swap(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if len(n.ops) == 1 and type(n.ops[0]) in sw:
                return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
            return n

    class Flip(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
            return n

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                return ast.Assign([ast.Name(n.target.id, ast.Store())], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
            return n

    cnt = [0]

    class Loops(ast.NodeTransformer):
        """for x in list: -> index loop; for i in range(..) -> while where the body has no continue"""
        def visit_For(self, n):
            self.generic_visit(n)
            cnt[0] += 1
            k = '_k%d' % cnt[0]
            if n.orelse:
                return n
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'enumerate', 'zip', 'reversed', 'sorted'):
                return n
            seq = '_s%d' % cnt[0]
            return [ast.Assign([ast.Name(seq, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [n.iter], [])),
                    ast.For(ast.Name(k, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(seq, ast.Load())], [])], []),
                            [ast.Assign([n.target], ast.Subscript(ast.Name(seq, ast.Load()), ast.Name(k, ast.Load()), ast.Load()))] + n.body, [])]

    class Temps(ast.NodeTransformer):
        """conditions into local variables; returns through a variable"""
        def visit_If(self, n):
            self.generic_visit(n)
            cnt[0] += 1
            v = '_c%d' % cnt[0]
            return [ast.Assign([ast.Name(v, ast.Store())], n.test), ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)]

        def visit_Return(self, n):
            if n.value is None:
                return n
            cnt[0] += 1
            v = '_r%d' % cnt[0]
            return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]

    class While(ast.NodeTransformer):
        def visit_While(self, n):
            self.generic_visit(n)
            if n.orelse:
                return n
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])

        def visit_For(self, n):
            self.generic_visit(n)
            if n.orelse or not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range') or \
                    any(isinstance(x, ast.Continue) for x in ast.walk(n)) or len(n.iter.args) > 2 or not isinstance(n.target, ast.Name):
                return n
            if any(isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Store) for b in n.body for x in ast.walk(b)):
                return n
            cnt[0] += 1
            e, w = '_e%d' % cnt[0], '_w%d' % cnt[0]
            a = n.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            return [ast.Assign([ast.Name(w, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi),
                    ast.While(ast.Compare(ast.Name(w, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                              [ast.Assign([n.target], ast.Name(w, ast.Load()))] + n.body +
                              [ast.AugAssign(ast.Name(w, ast.Store()), ast.Add(), ast.Constant(1))], [])]

    for T, label in ((Swap, 'swapcmp'), (Flip, 'flip'), (Loops, 'indexloop'), (Temps, 'temps'), (While, 'while')):
        cnt[0] = 0
        m = T().visit(copy.deepcopy(fn))
        if ast.dump(ast.fix_missing_locations(m)) != ast.dump(fn):
            yield emit(m, label)
    # body moved to a helper
    if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) and not any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(fn)):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        decs = [ast.unparse(d) for d in fn.decorator_list]
        prop = any('property' in d or 'setter' in d for d in decs)
        if not a.vararg and not a.kwarg and not a.kwonlyargs and not (names and names[0] == 'cls') and not fn.name.startswith('__'):
            inner = copy.deepcopy(fn)
            inner.name = '_body'
            inner.decorator_list = []
            inner.args.defaults = []
            outer = copy.deepcopy(fn)
            outer.body = [inner, ast.Return(ast.Call(ast.Name('_body', ast.Load()), [ast.Name(x, ast.Load()) for x in names], []))]
            yield emit(outer, 'closure')


def run(job):
    """in a forked child: the verdict of the property's items on the changed tree"""
    pid, rel, text, label, slot, mode = job
    t0 = time.time()
    root = os.path.join(SCR, 'w%d_%d' % (os.getpid(), slot))
    os.makedirs(root)
    shutil.copytree(os.path.join(REPO, 'converter21'), os.path.join(root, 'converter21'), ignore=shutil.ignore_patterns('__pycache__'))
    open(os.path.join(root, rel), 'w').write(text)
    try:
        sys.path.insert(0, root)
        from pyvc import fresh, runner
        find0 = fresh._Finder.find_spec
        import importlib.machinery as M

        def find_spec(name, path=None, target=None):
            if name.split('.')[0] != 'converter21':
                return None
            spec = M.PathFinder.find_spec(name, [root] if path is None else path)
            if spec is not None and type(spec.loader) is M.SourceFileLoader:
                spec.loader = fresh._Loader(name, spec.loader.path)
                spec.cached = None
            return spec
        fresh._Finder.find_spec = staticmethod(find_spec)
        try:
            with runner.quiet():
                runner.load(HERE)
        except BaseException as e:
            return 'caught', 'import %r' % e, time.time() - t0
        from pyvc.contract import REG, prove
        runner.CFG.update(deadline=t0 + 600, tier='quick', seed=1, here=HERE)
        items = REG.props[pid].items
        if mode == 'mut':
            for it in items:
                if it.kind != 'bounded' and (it.fn is None or any(runner._missing(t) for t in it.targets_list())):
                    continue
                n, f, _ = runner.search(it, 3, min(it.quick if it.kind == 'bounded' else 300, 300), 1)
                if f:
                    return 'caught', it.name + ' native', time.time() - t0
        notes = []
        for i, it in enumerate(items):
            if mode == 'mut' and it.kind == 'bounded':
                continue
            r = runner.work((pid, i, 'full'))
            if r['fails'] or r['status'] == 'failed':
                return ('caught', it.name + (' proof' if r['fails'] else ' no-input ' + str(r['obligs'][:1])[:300]), time.time() - t0)
            if r['status'] not in ('proved', 'bounded-ok'):
                notes.append('%s %s %s' % (it.name, r['status'], r['reason'][-160:]))
            for d in r['contracts']:
                if d[0] != pid:
                    notes.append('dep %s' % (d,)) if False else None
        return 'quiet', '; '.join(notes), time.time() - t0
    except BaseException as e:
        return 'error', repr(e)[:300], time.time() - t0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def tests(rel, text):
    root = os.path.join(SCR, 't%d' % os.getpid())
    shutil.copytree(REPO, root, ignore=shutil.ignore_patterns('__pycache__', '.git'), symlinks=True)
    open(os.path.join(root, rel), 'w').write(text)
    tmp = os.path.join(root, '_tmp')
    os.makedirs(tmp)
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TMPDIR=tmp)
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=100'], cwd=root, env=env,
                           capture_output=True, text=True, timeout=200)
        return 'same' if sorted(l.split(' - ')[0] for l in p.stdout.split('\n') if l.startswith(('FAILED', 'ERROR'))) == BASE else ' failed'
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        shutil.rmtree(root, ignore_errors=True)


BASE = []


def baseline():
    global BASE
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=100'], cwd=REPO,
                       env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TMPDIR=SCR), capture_output=True, text=True)
    BASE = sorted(l.split(' - ')[0] for l in p.stdout.split('\n') if l.startswith(('FAILED', 'ERROR')))
    print('tests failing on the clean tree', len(BASE))


def outer(job):
    r, msg, t = run(job)
    tt = ''
    if job[5] == 'mut' and r == 'quiet':
        tt = tests(job[1], job[2])
    return job, r, msg, t, tt


def main():
    mode, pid = sys.argv[1:3]
    mx = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    filt = sys.argv[4] if len(sys.argv) > 4 else ''
    rng = random.Random(int(os.environ.get('MSEED', '1')))
    os.makedirs(SCR, exist_ok=True)
    if mode == 'mut':
        baseline()
    jobs = []
    for q in functions(pid):
        mod, _, qual = q.partition(':')
        rel = mod.replace('.', '/') + '.py'
        if not os.path.exists(os.path.join(REPO, rel)):
            rel = mod.replace('.', '/') + '/__init__.py'
        if not rel.startswith('converter21') or filt not in q or not os.path.exists(os.path.join(REPO, rel)):
            continue
        src = open(os.path.join(REPO, rel)).read()
        lines = src.splitlines(True)
        fn = locate(ast.parse(src), qual)
        if fn is None:
            print('not found', q)
            continue
        if mode == 'mut':
            for node, text, label in mutants(fn):
                new = seg_replace(lines, node, text)
                try:
                    ast.parse(new)
                except SyntaxError:
                    continue
                jobs.append((pid, rel, new, '%s:%d %s: %s -> %s' % (qual, node.lineno, label, ast.get_source_segment(src, node)[:70].replace('\n', ' '), text[:70]), len(jobs), mode))
        else:
            for text, label in rewrites(fn, lines, rng):
                l0 = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
                new = ''.join(lines[:l0 - 1]) + ' ' * fn.col_offset + text + '\n' + ''.join(lines[fn.end_lineno:])
                try:
                    ast.parse(new)
                except SyntaxError as e:
                    print('bad rewrite', q, label, e)
                    continue
                jobs.append((pid, rel, new, '%s %s' % (qual, label), len(jobs), mode))
    total = len(jobs)
    rng.shuffle(jobs)
    jobs = jobs[:mx]
    print(pid, mode, total, 'possible,', len(jobs), 'run', flush=True)
    st = {}
    with mp.get_context('fork').Pool(int(os.environ.get('MJ', '8')), maxtasksperchild=1) as p:
        for job, r, msg, t, tt in p.imap_unordered(outer, jobs, chunksize=1):
            key = r if mode == 'ref' or r != 'quiet' else ('survived' if ' failed' not in tt and 'error' not in tt and tt != 'timeout' else 'killed by tests')
            st[key] = st.get(key, 0) + 1
            if mode == 'ref' and (r != 'quiet' or msg) or mode == 'mut' and (r == 'error' or key == 'survived'):
                print('  %s %5.1fs %s | %s | %s' % (key, t, job[3], msg[:300], tt[:60]), flush=True)
            if mode == 'mut' and 'no-input' in msg:
                print('  NOINPUT %s | %s' % (job[3], msg[:200]), flush=True)
    print(pid, mode, st, flush=True)
    shutil.rmtree(SCR, ignore_errors=True)


main()
