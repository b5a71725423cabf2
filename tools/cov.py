"""Line coverage of /repo by the simulated runs (development aid, not used by any check).

  VERIF_COV=DIR python3 check.py CXX ...     each process appends the lines it executed to DIR
  python3 tools/cov.py DIR [FILE...]         prints what was never executed"""
import ast, collections, os, sys


def start(d):
    import atexit
    M = sys.monitoring
    hits = set()
    root = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/'
    try:
        M.use_tool_id(3, 'cov')
    except ValueError:
        return

    def line(code, ln):
        fn = code.co_filename
        if fn.startswith(root):
            hits.add((fn[len(root):], ln))
        return M.DISABLE
    M.register_callback(3, M.events.LINE, line)
    M.set_events(3, M.events.LINE)
    real = os._exit

    def dump():
        with open(os.path.join(d, '%d' % os.getpid()), 'a') as f:
            f.write(''.join('%s %d\n' % h for h in hits))
        hits.clear()

    def ex(code):
        dump()
        real(code)
    os._exit = ex
    atexit.register(dump)


def main(d, files):
    hits = collections.defaultdict(set)
    for n in os.listdir(d):
        for l in open(os.path.join(d, n)):
            a = l.split()
            if len(a) == 2:
                hits[a[0]].add(int(a[1]))
    files = files or sorted(hits)
    for fn in files:
        src = open('/repo/' + fn).read()
        lines = src.split('\n')
        stmts = set()
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for s in ast.walk(node):
                    if isinstance(s, ast.stmt) and s is not node and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        stmts.add(s.lineno)
        miss = sorted(stmts - hits[fn])
        print('=== %s: %d of %d lines not executed' % (fn, len(miss), len(stmts)))
        if len(sys.argv) > 3:
            for ln in miss:
                print('%5d %s' % (ln, lines[ln - 1]))


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
