"""Abstract machine descriptions: document tree, expected registrations, and an interpreter of the generated C++ text."""
import contextlib
import re
import sys
from base import g, el, FILES, OUT



def untraced():
    """Parsing of the generated text is not part of the encoded code."""
    if 'crosshair.tracers' in sys.modules:
        from crosshair.tracers import NoTracing, is_tracing
        if is_tracing():
            return NoTracing()
    return contextlib.nullcontext()


NS = '{http://www.w3.org/2005/07/scxml}'


def S(id, kind='state', onentry=None, onexit=None, onstate=None, actions=(), trans=(), initial=None, children=(), event=None, hist=None, include=None, order=0):
    return dict(id=id, kind=kind, onentry=onentry, onexit=onexit, onstate=onstate, actions=list(actions), trans=list(trans), initial=initial, children=list(children), event=event, hist=hist, include=include, order=order)


def T(event, target=None, cond=None, cb=None, type=None):
    return dict(event=event, target=target, cond=cond, cb=cb, type=type)


def tree(s):
    """Document element of a state description."""
    ch = []
    for trigger, tag in (('entry', 'onentry'), ('exit', 'onexit')):
        sc = [el(NS + 'script', {}, text) for t, text, _ in s['actions'] if t == trigger]
        if s[tag] is not None:
            sc.insert(0 if s['order'] == 0 else len(sc), el(NS + 'script', {}, s[tag]))
        if sc:
            ch.append(el(NS + tag, {}, None, sc))
    if s['onstate'] is not None:
        ch.append(el(NS + 'invoke', {'srcexpr': s['onstate']}))
    for t in s['trans']:
        a = {'event': t['event']}
        if t['target'] is not None:
            a['target'] = t['target']
        if t['type'] is not None:
            a['type'] = t['type']
        if t['cond'] is not None:
            a['cond'] = t['cond'][0]
        ch.append(el(NS + 'transition', a, None, [el(NS + 'script', {}, t['cb'])] if t['cb'] is not None else []))
    a = {'id': s['id']}
    if s['kind'] == 'final' and s['event'] is not None:
        a['event'] = s['event']
    if s['kind'] == 'history':
        a['type'] = s['hist'][0]
        if s['hist'][1] is not None:
            ch.append(el(NS + 'transition', {'event': 'default_', 'target': s['hist'][1]}, None, [el(NS + 'script', {}, s['hist'][2])] if s['hist'][2] is not None else []))
    if s['initial'] is not None:
        if s['initial'][0] == 'attr':
            a['initial'] = s['initial'][1]
        else:
            it = []
            for child, event, cond in s['initial'][1]:
                ia = {'target': child}
                if event is not None:
                    ia['event'] = event
                if cond is not None:
                    ia['cond'] = cond[0]
                it.append(el(NS + 'transition', ia))
            ch.append(el(NS + 'initial', {}, None, it))
    for c in s['children']:
        ch.append(tree(c))
    if s['include'] is not None:
        FILES['/m/' + s['include']['file']] = root(s['include']['states'], s['include']['initial'])
        if s['include']['how'] == 'src':
            a['src'] = s['include']['file']
        else:
            ch.append(el('{http://www.w3.org/2001/XInclude}include', {'href': s['include']['file']}))
    return el(NS + s['kind'], a, None, ch)


def root(states, initial):
    return el(NS + 'scxml', {'initial': initial}, None, [tree(s) for s in states])


class Model:
    def __init__(self):
        self.states, self.finals, self.subs, self.hist, self.trans, self.timers, self.actions = {}, {}, [], [], [], [], {}
        self.enum_states, self.enum_events, self.enum_timers, self.callbacks, self.maybe = set(), set(), set(), {}, set()

    def use(self, kind, name):
        if name is not None:
            self.callbacks[name] = kind


def expect(states, m, prefix='', parent=None, pkind=None, initial=None):
    for s in states:
        id = prefix + s['id']
        m.enum_states.add(id)
        if parent is not None and s['kind'] != 'history':
            if pkind == 'parallel' or (initial is not None and initial[0] == 'attr' and initial[1] == s['id']):
                m.subs.append((parent, id, True, None, None))
            else:
                own = [i for i in initial[1] if i[0] == s['id']] if initial is not None and initial[0] == 'elem' else []
                bare = not any(ev is not None or cond is not None for _, ev, cond in own)
                for _, ev, cond in own:
                    if ev is not None:
                        m.enum_events.add(ev)
                    if cond is not None:
                        m.use('bool(args)', cond[1])
                    m.subs.append((parent, id, True, ev, cond[1:] if cond is not None else None))
                if not own:
                    m.subs.append((parent, id, False, None, None))
        if s['kind'] == 'history':
            d = prefix + s['hist'][1] if s['hist'][1] is not None else None
            m.hist.append((parent, id, 'DEEP' if s['hist'][0] == 'deep' else 'SHALLOW', d, s['hist'][2]))
            m.use('void(args)', s['hist'][2])
            m.maybe.add('default_')
            continue
        cbs = (s['onstate'], s['onentry'], s['onexit'])
        m.use('void(args)', s['onstate']); m.use('bool(args)', s['onentry']); m.use('bool()', s['onexit'])
        if s['kind'] == 'final':
            m.finals[id] = (s['event'],) + cbs
            if s['event'] is not None:
                m.enum_events.add(s['event'])
        else:
            m.states[id] = cbs
        for t in s['trans']:
            target = prefix + t['target'] if t['target'] is not None else id
            m.enum_events.add(t['event'])
            m.use('void(args)', t['cb'])
            if t['cond'] is not None:
                m.use('bool(args)', t['cond'][1])
            m.trans.append((id, target, t['event'], ((t['type'] or 'external').upper() if target == id else ''), t['cb'], t['cond'][1:] if t['cond'] is not None else None))
        for trig in ('entry', 'exit'):
            for tr, text, (act, args) in s['actions']:
                if tr == trig:
                    m.actions.setdefault((id, trig), []).append((act, args))
                    if 'TIMER' in act:
                        m.enum_timers.add(args[0])
                    else:
                        m.enum_events.add(args[0])
        expect(s['children'], m, prefix, id, s['kind'], s['initial'])
        if s['include'] is not None:
            inc = s['include']
            expect(inc['states'], m, prefix + s['id'] + '__', id, s['kind'], ('attr', inc['initial']))


def finish(m):
    for e in list(m.enum_events):
        if e.startswith('ON_TIMER_'):
            m.enum_timers.add(e[9:])
    for t in m.enum_timers:
        m.timers.append((t, 'ON_TIMER_' + t))
        m.enum_events.add('ON_TIMER_' + t)


CLS = 'FooBase'


def split(args):
    out, depth, cur = [], 0, ''
    for c in args:
        if c == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
            continue
        depth += (c in '(<') - (c in ')>')
        cur += c
    out.append(cur.strip())
    return [x for x in out] if args.strip() else []


def value(x):
    while True:
        k = re.fullmatch(r'static_cast<[^>]*>\((.*)\)', x)
        if not k:
            break
        x = k.group(1)
    x = x.replace('hsmcpp::', '')
    k = re.fullmatch(r'&%s::(\w+)' % CLS, x)
    if k:
        return ('cb', k.group(1))
    k = re.fullmatch(r'Foo(States|Events|Timers)::(\w+)', x)
    if k:
        return (k.group(1), k.group(2))
    k = re.fullmatch(r'(HistoryType|TransitionType|StateActionTrigger|StateAction)::(\w+)', x)
    if k:
        return k.groups()
    return {'this': None, 'nullptr': None, 'INVALID_HSM_EVENT_ID': None, 'INVALID_HSM_STATE_ID': None}.get(x, ('raw', x))


def val(v, kind):
    if v is None:
        return None
    if v[0] != kind:
        raise ValueError('argument %r where %s is needed' % (v, kind))
    return v[1]


def pad(a, n):
    if len(a) > n:
        raise ValueError('too many arguments %r' % (a,))
    return a + [None] * (n - len(a))


def cond(cb, v):
    name = val(cb, 'cb')
    if name is None:
        if v is not None:
            raise ValueError('value without condition')
        return None
    x = val(v, 'raw') if v is not None else 'true'
    if x not in ('true', 'false'):
        raise ValueError('condition value %r' % x)
    return (name, x)


def read_cpp(text):
    """What the generated constructor and configure*() functions register with the library."""
    m = Model()
    code = re.sub(r'//[^\n]*', '', text)
    k = re.search(r'HierarchicalStateMachine\(FooStates::(\w+)\)', code)
    m.initial = k.group(1) if k else None
    for body in re.findall(r'void %s::configure(?!Hsm)\w+\(\) \{(.*?)\n\}' % CLS, code, re.S):
        for st in [x.strip() for x in body.split(';')]:
            if not st:
                continue
            k = re.fullmatch(r'(?:\(void\)\s*)?(?:this->)?(register\w+)\s*(?:<\s*%s\s*>)?\s*\((.*)\)' % CLS, st, re.S)
            if not k:
                raise ValueError('statement not understood: ' + st)
            fn, raw = k.group(1), split(k.group(2))
            if any(x == '' for x in raw) or k.group(2).count('(') != k.group(2).count(')'):
                raise ValueError('not C++: ' + st)
            a = [value(x) for x in raw]
            if fn == 'registerState':
                a = pad(a, 5)
                id = val(a[0], 'States')
                if id in m.states or id in m.finals:
                    raise ValueError('state registered twice: ' + id)
                m.states[id] = tuple(val(x, 'cb') for x in a[2:])
            elif fn == 'registerFinalState':
                a = pad(a, 6)
                id = val(a[0], 'States')
                if id in m.states or id in m.finals:
                    raise ValueError('state registered twice: ' + id)
                m.finals[id] = (val(a[1], 'Events'),) + tuple(val(x, 'cb') for x in a[3:])
            elif fn == 'registerSubstate':
                m.subs.append((val(a[0], 'States'), val(a[1], 'States'), False, None, None))
                pad(a, 2)
            elif fn == 'registerSubstateEntryPoint':
                a = pad(a, 6)
                m.subs.append((val(a[0], 'States'), val(a[1], 'States'), True, val(a[2], 'Events'), cond(a[4], a[5])))
            elif fn == 'registerHistory':
                a = pad(a, 6)
                m.hist.append((val(a[0], 'States'), val(a[1], 'States'), val(a[2], 'HistoryType') or 'SHALLOW', val(a[3], 'States'), val(a[5], 'cb')))
            elif fn == 'registerTransition':
                a = pad(a, 7)
                m.trans.append((val(a[0], 'States'), val(a[1], 'States'), val(a[2], 'Events'), '', val(a[4], 'cb'), cond(a[5], a[6])))
            elif fn == 'registerSelfTransition':
                a = pad(a, 7)
                ty = val(a[2], 'TransitionType') or 'EXTERNAL_TRANSITION'
                m.trans.append((val(a[0], 'States'), val(a[0], 'States'), val(a[1], 'Events'), ty.replace('_TRANSITION', ''), val(a[4], 'cb'), cond(a[5], a[6])))
            elif fn == 'registerTimer':
                m.timers.append((val(a[0], 'Timers'), val(a[1], 'Events')))
            elif fn == 'registerStateAction':
                trig = {'ON_STATE_ENTRY': 'entry', 'ON_STATE_EXIT': 'exit'}[val(a[1], 'StateActionTrigger')]
                m.actions.setdefault((val(a[0], 'States'), trig), []).append((val(a[2], 'StateAction'), [x[1] for x in a[3:]]))
                if (a[3][0] == 'Timers') != ('TIMER' in a[2][1]):
                    raise ValueError('wrong kind of first argument: ' + st)
            else:
                raise ValueError('unknown registration: ' + st)
    return m


def read_hpp(text, m):
    code = re.sub(r'//[^\n]*', '', text)
    for name, attr in (('FooStates', 'enum_states'), ('FooEvents', 'enum_events'), ('FooTimers', 'enum_timers')):
        k = re.search(r'namespace %s \{(.*?)\n\}' % name, code, re.S)
        items = re.findall(r'constexpr [\w:]+ (\w+) = (\d+);', k.group(1)) if k else []
        if len(set(n for n, _ in items)) != len(items) or len(set(v for _, v in items)) != len(items):
            raise ValueError('%s: names or values are not unique: %r' % (name, items))
        setattr(m, attr, set(n for n, _ in items))
    decl = re.findall(r'virtual (void|bool) (\w+)\(([^)]*)\) = 0;', code)
    for ret, name, args in decl:
        if name in m.callbacks:
            raise ValueError('callback declared twice: ' + name)
        m.callbacks[name] = '%s(%s)' % (ret, 'args' if 'VariantVector_t' in args else '')


def names(text, prefix):
    return re.findall(r'case Foo%s::(\w+):\s*\(void\)\w+\.assign\("([^"]*)"\)' % prefix, text)


def by_pair(trans):
    d = {}
    for t in trans:
        d.setdefault((t[0], t[2]), []).append(t)
    return d


def check(states, initial):
    """Generates code for the described machine; '' when it registers exactly the elements of the description."""
    FILES.clear(); OUT.clear()
    FILES['/m/m.scxml'] = root(states, initial)
    w = Model()
    expect(states, w)
    finish(w)
    g.generate_code('/m/m.scxml', '/out', 'Foo', 'Base', '/t/template.hpp', '/t/template.cpp', None, None)
    cpp, hpp = OUT['/out/FooBase.cpp'], OUT['/out/FooBase.hpp']
    with untraced():    # the texts are concrete on every path
        return compare(w, str(cpp), str(hpp), initial)


def compare(w, cpp, hpp, initial):
    try:
        m = read_cpp(cpp)
        read_hpp(hpp, m)
    except ValueError as e:
        return 'generated code is wrong: %s' % e
    for what in ('states', 'finals', 'actions', 'callbacks', 'enum_states', 'enum_timers'):
        if getattr(m, what) != getattr(w, what):
            return '%s: %r instead of %r' % (what, getattr(m, what), getattr(w, what))
    if m.initial != initial:
        return 'initial state %r' % m.initial
    for what in ('subs', 'hist', 'timers'):
        if sorted(map(repr, getattr(m, what))) != sorted(map(repr, getattr(w, what))):
            return '%s: %r instead of %r' % (what, getattr(m, what), getattr(w, what))
    if by_pair(m.trans) != by_pair(w.trans):
        return 'transitions: %r instead of %r' % (m.trans, w.trans)
    if not (w.enum_events <= m.enum_events <= w.enum_events | w.maybe):
        return 'events: %r instead of %r' % (sorted(m.enum_events), sorted(w.enum_events))
    for prefix, want in (('States', m.enum_states), ('Events', m.enum_events)):
        n = names(cpp, prefix)
        if any(a != b for a, b in n) or set(a for a, _ in n) != want or len(n) != len(want):
            return 'names of %s: %r' % (prefix, n)
    return ''
