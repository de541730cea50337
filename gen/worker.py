"""worker.py MODULE TARGET SECONDS: decides one target with CrossHair (symbolic execution of the real Python, Z3) and prints one JSON line.
worker.py --replay MODULE TARGET ARGS-AS-PYTHON-DICT: runs the target concretely with plain Python; exit 1 and the description when it fails."""
import sys, os, json, time, ast, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def replay(mod, name, args):
    m = __import__(mod)
    r = getattr(m, name)(**args)
    if r:
        print('%s(%s): %s' % (name, ', '.join('%s=%r' % kv for kv in args.items()), r))
        return 1
    return 0


def call_args(message, fn):
    """Arguments named by CrossHair in '... when calling f(args) (which returns ...)'."""
    k = message.find(fn.__name__ + '(')
    if k < 0:
        return None
    text = message[k:]
    names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
    for end in [i + 1 for i, c in enumerate(text) if c == ')']:
        try:
            c = ast.parse(text[:end], mode='eval').body
            out = dict(zip(names, [ast.literal_eval(a) for a in c.args]))
            out.update({kw.arg: ast.literal_eval(kw.value) for kw in c.keywords})
            return out
        except (SyntaxError, ValueError, AttributeError):
            continue
    return None


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2], sys.argv[3], ast.literal_eval(sys.argv[4]))
    mod, name, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
    import z3
    st = dict(queries=0, sat=0, unsat=0, unknown=0, z3time=0.0, z3max=0.0)
    orig = z3.Solver.check

    def check(self, *a):
        t = os.times().elapsed
        r = orig(self, *a)
        dt = os.times().elapsed - t
        st['queries'] += 1; st[str(r)] = st.get(str(r), 0) + 1; st['z3time'] += dt; st['z3max'] = max(st['z3max'], dt)
        return r
    z3.Solver.check = check
    from crosshair.core_and_libs import analyze_function, run_checkables, MessageType
    from crosshair.options import AnalysisOptionSet, AnalysisKind
    m = __import__(mod)
    fn = getattr(m, name)
    cnt = collections.Counter()
    opts = AnalysisOptionSet(analysis_kind=[AnalysisKind.PEP316], per_condition_timeout=secs, per_path_timeout=max(10.0, secs / 4), report_all=True, stats=cnt, max_uninteresting_iterations=sys.maxsize)
    t0 = time.time()
    msgs = run_checkables(analyze_function(fn, opts))
    out = dict(target=name, seconds=round(time.time() - t0, 1), stats=st, paths=cnt.get('num_paths', 0), exhausted=cnt.get('exhaustion', 0), messages=[], args=None, state='none')
    order = ['CONFIRMED', 'CANNOT_CONFIRM', 'PRE_UNSAT', 'POST_ERR', 'EXEC_ERR', 'POST_FAIL', 'SYNTAX_ERR', 'IMPORT_ERR']
    for x in msgs:
        s = x.state.name
        out['messages'].append('%s: %s' % (s, x.message))
        if out['state'] == 'none' or order.index(s) > order.index(out['state']):
            out['state'] = s
            out['args'] = repr(call_args(x.message, fn)) if s in ('POST_ERR', 'EXEC_ERR', 'POST_FAIL') else None
    print('RESULT ' + json.dumps(out))
    return 0


if __name__ == '__main__':
    sys.exit(main())
