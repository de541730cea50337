"""C50: the generated PlantUML diagram shows exactly the elements of the description. Every input is a symbolic choice."""
import os
import re
from base import g, FILES, OUT
from model import S, T, root, untraced
from c49 import pick, COND, ACT, D


class Diagram:
    def __init__(self):
        self.declared, self.blocks, self.arrows, self.text, self.marked, self.l2r = [], [], [], {}, [], False

    def key(self):
        return dict(states=sorted(map(repr, self.declared)), blocks=sorted(map(repr, self.blocks)), arrows=sorted(map(repr, self.arrows)), text={k: v for k, v in self.text.items() if any(v.values())}, left_to_right=self.l2r)


def plain(x):
    return x.replace('**', '').strip()


def read(text):
    """Elements of a PlantUML state diagram."""
    d, scope, note, group = Diagram(), [None], False, {}
    lines = [x.strip() for x in text.split('\n')]
    lines = [x for x in lines if x]
    if not lines or lines[0] != '@startuml' or lines[-1] != '@enduml':
        raise ValueError('not a diagram')
    for l in lines[1:-1]:
        if note:
            note = l != 'end note'
            continue
        if l == 'left to right direction':
            d.l2r = True
            continue
        if l == 'note on link':
            note = True
            continue
        if re.match(r'note left of \w+ :', l):
            continue
        k = re.fullmatch(r'state (\w+) \{', l)
        if k:
            d.blocks.append((scope[-1], k.group(1)))
            scope.append(k.group(1))
            continue
        if l == '}':
            scope.pop()
            if not scope:
                raise ValueError('unbalanced block')
            continue
        k = re.fullmatch(r'state (\w+)', l)
        if k:
            d.declared.append((scope[-1], k.group(1)))
            continue
        k = re.fullmatch(r'state "\*\*(\w+)\*\*" as (\w+) #\w+|state (\w+) ##\[\w+\]\w+', l)
        if k:
            d.marked.append((scope[-1], k.group(2) or k.group(3)))
            continue
        k = re.fullmatch(r'(\[\*\]|\[H\*?\]|\w+) -(\[#\w+,bold\])?-> (\[\*\]|\[H\*?\]|\w+)(?:\s*:(.*))?', l)
        if k:
            src, style, dst, label = k.groups()
            label = plain(label or '').replace('\\n', ' ').split()
            # the place matters for pseudostates
            d.arrows.append((scope[-1] if src[0] == '[' or dst[:2] == '[H' else '', src, dst, ' '.join(label)))
            if style:
                d.marked.append(d.arrows[-1])
            continue
        k = re.fullmatch(r'(\w+) :(.*)', l)
        if k:
            id, t = k.group(1), plain(k.group(2))
            e = d.text.setdefault(id, dict(state=[], entry=[], exit=[]))
            if t == '<on entry>' or t == '<on exit>':
                group[id] = 'entry' if 'entry' in t else 'exit'
            elif t.startswith('- '):
                e[group[id]].append(t[2:])
            elif t:
                e['state'].append(t)
            continue
        raise ValueError('line not understood: ' + l)
    if len(scope) != 1 or note:
        raise ValueError('block is not closed')
    return d


def lab(event, c, cb):
    return ' '.join(([event] if event is not None else []) + (['[%s is %s]' % tuple(c[1:])] if c is not None else []) + (['<%s>' % cb] if cb is not None else []))


def expect(states, d, initial, parent=None, pkind=None, init=None, prefix='', fin=None, hist=None):
    if fin is None:
        fin, hist = set(), {}

        def scan(ss, p, up):
            for s in ss:
                if s['kind'] == 'final':
                    fin.add(p + s['id'])
                if s['kind'] == 'history':
                    hist[p + s['id']] = (up, '[H*]' if s['hist'][0] == 'deep' else '[H]')
                scan(s['children'], p, p + s['id'])
                if s['include'] is not None:
                    scan(s['include']['states'], p + s['id'] + '__', p + s['id'])
        scan(states, '', None)
    for s in states:
        id = prefix + s['id']
        name = '[*]' if id in fin else id
        if s['kind'] == 'history':
            if s['hist'][1] is not None:
                d.arrows.append((hist[id][0], hist[id][1], prefix + s['hist'][1], lab('default_', None, s['hist'][2])))
            continue
        if id not in fin:
            d.declared.append((parent, id))
        if parent is None:
            if s['id'] == initial:
                d.arrows.append((None, '[*]', name, ''))
        elif pkind == 'parallel' or (init is not None and init[0] == 'attr' and init[1] == s['id']):
            d.arrows.append((parent, '[*]', name, ''))
        elif init is not None and init[0] == 'elem':
            own = [i for i in init[1] if i[0] == s['id']]
            for _, ev, c in own:
                d.arrows.append((parent, '[*]', name, lab(ev, c, None)))
        for t in s['trans']:
            target = prefix + t['target'] if t['target'] is not None else id
            if target in hist:
                d.arrows.append((hist[target][0], id, hist[target][1], lab(t['event'], t['cond'], t['cb'])))
            else:
                d.arrows.append(('', id, '[*]' if target in fin else target, lab(t['event'], t['cond'], t['cb'])))
        if s['children'] or s['include'] is not None:
            d.blocks.append((parent, id))
        elif id not in fin:
            e = dict(state=[s['onstate']] if s['onstate'] else [], entry=[s['onentry']] if s['onentry'] else [], exit=[s['onexit']] if s['onexit'] else [])
            for tr, text, (act, args) in s['actions']:
                e[tr].append((act, args))
            d.text[id] = e
        expect(s['children'], d, initial, id, s['kind'], s['initial'], prefix, fin, hist)
        if s['include'] is not None:
            expect(s['include']['states'], d, initial, id, s['kind'], ('attr', s['include']['initial']), id + '__', fin, hist)


def norm(text):
    """Actions are written as a name and a list of arguments."""
    for e in text.values():
        for k in ('entry', 'exit'):
            out = []
            for x in e[k]:
                if isinstance(x, tuple):
                    out.append('%s(%s)' % (x[0].lower(), ','.join(x[1])))
                else:
                    m = re.fullmatch(r"(\w+)[\[(](.*)[\])]", x)
                    out.append('%s(%s)' % (m.group(1), ','.join(a.strip().strip("'").strip() for a in m.group(2).split(','))) if m else x)
            e[k] = out
    return text


def check(states, initial, left=False, highlight=None, marks=None):
    FILES.clear(); OUT.clear()
    FILES['/m/m.scxml'] = root(states, initial)
    if highlight is None:
        g.generate_diagram('/m/m.scxml', '/out/m.puml', left)
        out = OUT['/out/m.puml']
    else:
        out = g.generatePlantumlInMemory(g.parseScxml('/m/m.scxml'), left, highlight)
    with untraced():
        return compare(states, initial, str(out), True if left else False, marks)


def compare(states, initial, out, left, marks):
    w = Diagram()
    expect(states, w, initial)
    w.l2r = left
    try:
        m = read(out)
    except ValueError as e:
        return 'wrong diagram: %s' % e
    norm(w.text); norm(m.text)
    a, b = w.key(), m.key()
    for k in a:
        if a[k] != b[k]:
            return '%s: %r instead of %r' % (k, b[k], a[k])
    if any(x not in m.declared for x in m.marked if len(x) == 2):
        return 'only states which are part of the diagram can be marked: %r' % m.marked
    if marks is not None:
        got = sorted(set(repr(x[1:]) for x in m.marked if len(x) == 4))
        if got != sorted(set(repr(x) for x in marks)):
            return 'highlighted transitions: %r instead of %r' % (got, marks)
    return ''


def transitions(target: int, cond: int, cb: bool, source: int, second: int, left: bool) -> str:
    """
    pre: 0 <= target <= 5 and 0 <= cond <= 3 and 0 <= source <= 2 and 0 <= second <= 3
    post: _ == ''
    """
    src = pick(source, ['A', 'B', 'B1'])
    tgt = pick(target, [None, 'A', 'B', 'B1', 'F', 'F1'])
    cn = pick(cond, COND)
    call = (True if cb else False) if D else cn in (None, COND[3])
    t = [T('GO', tgt, cn, 'onT' if call else None)]
    sec = pick(second, [None, T('GO', tgt, ('c2', 'c2', 'true')), T('GO2', tgt), T('GO', 'A', None, 'onT')])
    if sec is not None:
        t.append(sec)
    return check([S('A', trans=t if src == 'A' else []),
                  S('B', trans=t if src == 'B' else [], initial=('attr', 'B1'), children=[S('B1', trans=t if src == 'B1' else []), S('F1', 'final')]), S('F', 'final')], 'A', left if D else src == 'B1')


NAMES = ['F', 'Fin', 'A', 'AB', 'F_1', 'BF', 'in_F']


def names(fin: int, s1: int, s2: int, nested: bool, cb: int) -> str:
    """
    pre: 0 <= fin <= 6 and 0 <= s1 <= 6 and 0 <= s2 <= 6 and 0 <= cb <= 1 and fin != s1 and fin != s2 and s1 != s2
    post: _ == ''
    """
    f, a, b = pick(fin, NAMES), pick(s1, NAMES), pick(s2, NAMES)
    kids = [S(a, trans=[T('GO', b, None, f if cb == 1 else None), T('END', f)]), S(b, trans=[T(f, a)]), S(f, 'final')]
    return check([S('TOP', initial=('attr', a), children=kids)], 'TOP') if (nested if D else cb == 1) else check(kids, a)


def entry_points(form: int, ev: bool, cond: int, second: int, order: bool, deep: bool) -> str:
    """
    pre: 0 <= form <= 4 and 0 <= cond <= 3 and 0 <= second <= 4
    post: _ == ''
    """
    kids = [S('P1'), S('P2'), S('F', 'final')]
    if order:
        kids.reverse()
    fm = pick(form, ['none', 'P1', 'F', 'elem', 'par'])
    init, kind = None, 'state'
    if fm == 'elem':
        trs = [('P1', 'EV1' if ev else None, pick(cond, COND))]
        sec = pick(second, [None, ('P2', 'EV2', None), ('P1', 'EV2', ('c2 is false', 'c2', 'false')), ('P2', None, None), ('F', None, None)])
        if sec is not None:
            trs.append(sec)
        init = ('elem', trs)
    elif fm == 'par':
        kind, kids = 'parallel', [k for k in kids if k['kind'] == 'state']
    elif fm != 'none':
        init = ('attr', fm)
    p = S('P', kind, initial=init, children=kids)
    return check([S('A'), S('Q', initial=('attr', 'P'), children=[p]) if deep else p], 'A')


def history(deep: bool, default: int, cb: bool, sources: int, par: bool, first: bool, second: int, cond: int) -> str:
    """
    pre: 0 <= default <= 1 and 0 <= sources <= 3 and 0 <= second <= 2 and 0 <= cond <= 3
    post: _ == ''
    """
    d = pick(default, [None, 'P2'])
    h = S('H', 'history', hist=('deep' if deep else 'shallow', d, 'onH' if (cb if d is not None else False) else None))
    ns = pick(sources, [0, 1, 2, 3])
    kids = [S('P1', trans=[T('SELF', 'H')] if ns == 3 else []), S('P2')]
    kids = [h] + kids if first else kids + [h]
    sec = pick(second, [None, 'shallow', 'deep'])
    if sec is not None:
        kids.append(S('Q', initial=('attr', 'Q1'), children=[S('Q1'), S('H2', 'history', hist=(sec, 'Q1', None))]))
    ta = ([T('BACK', 'H', pick(cond, COND) if ns == 1 else None, 'onB')] if ns else []) + ([T('BACK2', 'H'), T('NEXT', 'C')] if ns == 2 else [])
    pl = True if par else False
    return check([S('A', trans=ta), S('C', trans=[T('BACK', 'H')] if ns >= 2 else []), S('P', 'parallel' if pl else 'state', initial=None if pl else ('attr', 'P1'), children=kids)], 'A')


def callbacks(entry: bool, exit: bool, state: bool, act1: int, trig1: bool, act2: int, trig2: bool, nested: bool) -> str:
    """
    pre: 0 <= act1 <= 5 and 0 <= act2 <= 5
    post: _ == ''
    """
    acts = []
    if act1 < 5:
        acts.append(('entry' if trig1 else 'exit',) + pick(act1, ACT))
        if act2 < 5:
            acts.append(('entry' if (trig2 if D else trig1) else 'exit',) + pick(act2, ACT))
    n = (True if nested else False) if D else len(acts) == 1
    x = S('X', onentry='in1' if entry else None, onexit='out1' if exit else None, onstate='st1' if state else None, actions=acts)
    y = S('Y', onentry='in1', onexit='out1') if n else S('Y')
    return check([S('A', children=[y, x], initial=('attr', 'Y'))] if n else [y, x], 'A' if n else 'Y')


def nesting(depth: int, target: int, sibling: bool, how: int, left: bool) -> str:
    """
    pre: 1 <= depth <= 3 and 0 <= target <= 3 and 0 <= how <= 2
    post: _ == ''
    """
    sib = True if sibling else False
    inc = pick(how, [None, 'src', 'include'])
    tr = [T('GO', pick(target, [None, 'A', 'L1', 'L0']))]
    s = S('L0', trans=tr, onentry='in1')
    for i in range(1, 4):
        if depth < i:
            break
        s = S('L%d' % i, initial=('attr', s['id']), children=[s] + ([S('N%d' % i, 'final', event='F%d' % i)] if sib else []))
    more = []
    if inc is not None:
        more = [S('I', include=dict(file='sub.scxml', how=inc, initial='I1', states=[S('I1', trans=[T('GO', 'I2')]), S('I2', trans=[T('BACK', 'I1')], initial=('attr', 'I3'), children=[S('I3', trans=[T('OUT', 'IF')])]), S('IF', 'final')]))]
    return check([S('A')] + more + [s], 'A', left)


def highlighting(frm: int, to: int, ev: int, active: int, blocked: bool, what: int, args: bool) -> str:
    """
    pre: 0 <= frm <= 3 and 0 <= to <= 6 and 0 <= ev <= 1 and 0 <= active <= 3 and 0 <= what <= 4
    post: _ == ''
    """
    tr = [T('GO', 'B'), T('NEXT', 'B'), T('GO', 'A'), T('NEXT', 'F'), T('GO', 'P'), T('GO', 'H')]
    st = [S('A', trans=tr, onentry='in1', onexit='out1', onstate='st1'), S('B', trans=[T('GO', 'A'), T('NEXT', 'F')]), S('F', 'final'),
          S('P', initial=('elem', [('P1', 'GO', COND[3]), ('P2', None, None)]), children=[S('P1'), S('P2'), S('H', 'history', hist=('deep', 'P2', None))])]
    if D == 0:
        if what == 0:
            active, blocked = 0, False
        else:
            frm, to, ev, args = 0, 1, 0, blocked
    f, t, e = pick(frm, ['A', 'B', '', 'H']), pick(to, ['A', 'B', 'F', 'P', 'P1', 'P2', 'H']), pick(ev, ['GO', 'NEXT'])
    h = {'active_states': [], 'callback': {}, 'transitions': {}, 'state_actions': {}}
    a = pick(active, [None, 'A', 'B', 'P1'])
    if a is not None:
        h['active_states'].append(a)
    h['transitions'][t] = {'from': f, 'event': e}
    if args:
        h['transitions'][t]['args'] = '[1]'
    w = pick(what, [None, 'onentry', 'onexit', 'onstate', 'actions'])
    if w == 'actions':
        h['state_actions']['A'] = 'onentry' if blocked else 'onexit'
    elif w is not None:
        h['callback']['A'] = {w: False if blocked else True}
    marks = []
    for x in tr:
        if f == 'A' and x['target'] == t and x['event'] == e:
            marks.append(('A', {'F': '[*]', 'H': '[H*]'}.get(t, t), e))
    if f == 'B' and (t, e) in (('A', 'GO'), ('F', 'NEXT')):
        marks.append(('B', {'F': '[*]'}.get(t, t), e))
    if f == '' and t == 'P1' and e == 'GO':
        marks.append(('[*]', 'P1', 'GO [c1 is false]'))
    if f == '' and t == 'P2':
        marks.append(('[*]', 'P2', ''))
    if f == '' and t == 'A':
        marks.append(('[*]', 'A', ''))
    if f == 'H' and t == 'P2':
        marks.append(('[H*]', 'P2', 'default_'))
    return check(st, 'A', False, h, marks)


TARGETS = {
    'transitions': ('one or two transitions: 3 sources, 6 targets (itself, siblings, children, parents, final states), guard forms, callback, layout direction', 400, 800),
    'names': ('names of states, final states, events and callbacks which contain each other', 400, 800),
    'entry_points': ('no/attribute/element entry points, final states as entry points, one or two initial transitions with event and/or guard, parallel parents', 400, 800),
    'history': ('shallow/deep, default target and callback, position, sources inside and outside of the parent, second history', 400, 800),
    'callbacks': ('every subset of callbacks and up to two actions out of 5 on entry/exit', 400, 800),
    'nesting': ('1-3 levels, transitions between levels, final siblings, included documents', 400, 800),
    'highlighting': ('any transition, entry point or history default as highlighted transition, active states, callbacks and actions', 400, 800),
}
FUNCTIONS = ['parseScxml', 'parseScxmlStates', 'generate_diagram', 'generatePlantuml', 'generatePlantumlInMemory', 'generatePlantumlState', 'generateStatesList', 'preparePlantumlTransition', 'prepareTransitionHighlight',
             'findState', 'findTranstitions', 'isHistoryState', 'getHistoryStateName', 'getCallbackName', 'getStateActions', 'generateOffset']
