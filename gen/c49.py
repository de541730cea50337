"""C49: the generated code registers every element of the model exactly once. Every input is a symbolic choice."""
from base import g
import os
from model import S, T, check

D = 1 if os.environ.get('VF_TIER') == 'thorough' else 0


def pick(i, values):
    for k in range(len(values) - 1):
        if i == k:
            return values[k]
    return values[-1]


COND = [None, ('c1', 'c1', 'true'), ('c1 is true', 'c1', 'true'), ('c1 is false', 'c1', 'false')]


def state_callbacks(kind: int, nested: bool, entry: bool, exit: bool, state: bool, shared: bool) -> str:
    """
    pre: 0 <= kind <= 3
    post: _ == ''
    """
    k, ev = pick(kind, [('state', None), ('final', None), ('final', 'DONE'), ('parallel', None)])
    x = S('X', k, event=ev, onentry='in1' if entry else None, onexit='out1' if exit else None, onstate='st1' if state else None)
    inner = True if nested else False
    sh = inner if D == 0 else (True if shared else False)
    use = [T('DONE', 'Y')] if ev is not None and (shared if D else sh) else []     # the event may also be known from elsewhere
    y = S('Y', onentry='in1', onexit='out1', onstate='st1', trans=use) if sh else S('Y', trans=use)
    return check([S('A', children=[y, x], initial=('attr', 'Y'))] if inner else [y, x], 'A' if inner else 'Y')


def transition(target: int, type: int, cb: bool, cond: int, source: int) -> str:
    """
    pre: 0 <= target <= 3 and 0 <= type <= 2 and 0 <= cond <= 3 and 0 <= source <= 2
    post: _ == ''
    """
    src = pick(source, ['A', 'B', 'B1'])
    tgt = pick(target, [None, src, 'A', 'B1'])
    ty = pick(type, [None, 'internal', 'external']) if D or tgt in (None, src) else None
    c = pick(cond, COND)
    call = (True if cb else False) if D else c in (None, COND[3]) and src != 'A'
    t = [T('GO', tgt, c, 'onT' if call else None, ty)]
    return check([S('A', trans=t if src == 'A' else []),
                  S('B', trans=t if src == 'B' else [], initial=('attr', 'B1'), children=[S('B1', trans=t if src == 'B1' else [])])], 'A')


def transitions(ev2: bool, same_target: bool, cbs: int, cond1: int, cond2: int) -> str:
    """
    pre: 0 <= cbs <= 2 + 3 * D and 0 <= cond1 <= 1 + 2 * D and 0 <= cond2 <= 3
    post: _ == ''
    """
    cb1, cb2 = pick(cbs, [(None, None), ('onT', 'onT'), ('onT', 'onU'), ('onT', None), (None, 'onT'), ('onU', 'onT')])
    a = [T('GO', 'B', pick(cond1, [COND[1], COND[0], COND[3], COND[2]]), cb1),
         T('GO2' if ev2 else 'GO', 'B' if same_target else 'A', pick(cond2, [None, ('c2', 'c2', 'true'), ('c1 is true', 'c1', 'true'), ('c1 is false', 'c1', 'false')]), cb2)]
    return check([S('A', trans=a), S('B', trans=[T('GO', 'A')])], 'A')


def entry_points(par: bool, form: int, ev: bool, cond: int, second: int, order: bool) -> str:
    """
    pre: 0 <= form <= 4 and 0 <= cond <= 3 and 0 <= second <= 4
    post: _ == ''
    """
    kids = [S('P1'), S('P2'), S('F', 'final', event='DONE' if form == 3 else None)]
    if order:
        kids.reverse()
    if par:
        return check([S('A'), S('P', 'parallel', children=[k for k in kids if k['kind'] == 'state'])], 'A')
    if form == 0:
        init = None
    elif form == 1:
        init = ('attr', 'P1')
    elif form == 2:
        init = ('attr', 'P2')
    elif form == 3:
        init = ('attr', 'F')
    else:
        trs = [('P1', 'EV1' if ev else None, pick(cond, COND))]
        if second == 1:
            trs.append(('P2', 'EV2', None))
        elif second == 2:
            trs.append(('P1', 'EV2', ('c2 is false', 'c2', 'false')))
        elif second == 3:
            trs.append(('P2', None, None))
        elif second == 4:
            trs.append(('F', None, None))
        init = ('elem', trs)
    return check([S('A'), S('P', initial=init, children=kids)], 'A')


def history(deep: bool, default: int, cb: bool, shared: bool, par: bool, first: bool, second: bool) -> str:
    """
    pre: 0 <= default <= 1 + D
    post: _ == ''
    """
    d = pick(default, [None, 'P2', 'P1'])
    dp, pl = (True if deep else False), (True if par else False)
    call = d is not None and (True if cb else False)
    h = S('H', 'history', hist=('deep' if dp else 'shallow', d, 'onH' if call else None))
    kids = [S('P1', trans=[T('GO', 'A', None, 'onH')] if (call if D == 0 else shared) else []), S('P2')]
    kids = [h] + kids if (dp if D == 0 else first) else kids + [h]
    if second:
        kids.append(S('Q', initial=('attr', 'Q1'), children=[S('Q1'), S('H2', 'history', hist=('shallow' if dp else 'deep', 'Q1', None))]))
    return check([S('A', trans=[T('BACK', 'H')]), S('P', 'parallel' if pl else 'state', initial=None if pl else ('attr', 'P1'), children=kids)], 'A')


ACT = [('start_timer(T1, 100, false)', ('START_TIMER', ['T1', '100', 'false'])), ('stop_timer(T1)', ('STOP_TIMER', ['T1'])), ('restart_timer(T2)', ('RESTART_TIMER', ['T2'])),
       ('transition(EV1)', ('TRANSITION', ['EV1'])), ('transition(GO, 5, "abc", true)', ('TRANSITION', ['GO', '5', '"abc"', 'true']))]


def actions(trig1: bool, act1: int, trig2: bool, act2: int, cb: int, timer_event: bool) -> str:
    """
    pre: 0 <= act1 <= 4 and 0 <= act2 <= 5 and 0 <= cb <= 2
    post: _ == ''
    """
    t1 = True if trig1 else False
    acts = [('entry' if t1 else 'exit',) + pick(act1, ACT)]
    if act2 < 5:
        acts.append(('entry' if (t1 if D == 0 else trig2) else 'exit',) + pick(act2, ACT))
        c = 2 if D == 0 else pick(cb, [0, 1, 2])
    else:
        c = pick(cb, [0, 1, 2])
    t = [T('ON_TIMER_T1' if (t1 if D == 0 else timer_event) else 'GO', 'B')]
    return check([S('A', actions=acts, onentry='in1' if c else None, onexit='out1' if c else None, order=1 if c == 2 else 0, trans=t), S('B')], 'A')


def timer_events(t1: bool, t2: bool, act: int, where: int) -> str:
    """
    pre: 0 <= act <= 2 and 0 <= where <= 3
    post: _ == ''
    """
    tr = []
    f = True if t1 else False
    if f:
        tr.append(T('ON_TIMER_T1', 'B'))
    if t2 if D else not f:
        tr.append(T('ON_TIMER_T2', 'B'))
    acts = [('entry',) + pick(act, ACT)] if act < 2 else []
    fin = S('F', 'final', event='ON_TIMER_T3') if where == 1 else S('F', 'final')
    init = ('elem', [('C1', 'ON_TIMER_T4', None)]) if where == 2 else ('attr', 'C1')
    ca = [('exit', 'transition(ON_TIMER_T5)', ('TRANSITION', ['ON_TIMER_T5']))] if where == 3 else []
    return check([S('A', actions=acts, trans=tr), S('B'), S('C', initial=init, children=[S('C1', actions=ca), fin])], 'A')


def nesting(depth: int, deep_trans: int, cond: int, sibling: bool, cb: bool) -> str:
    """
    pre: 1 <= depth <= 3 and 0 <= deep_trans <= 3 and 0 <= cond <= 3
    post: _ == ''
    """
    sib = True if sibling else False
    tgt = pick(deep_trans, [None, 'A', 'L1', 'L0'])
    tr = [T('GO', tgt, pick(cond, COND) if D else (COND[3] if sib else None), 'onT' if (cb if D else tgt == 'A') else None)]
    s = S('L0', trans=tr, onentry='in1')
    for i in range(1, 4):
        if depth < i:
            break
        kids = [s] + ([S('N%d' % i, 'final', event='F%d' % i)] if sib else [])
        s = S('L%d' % i, initial=('attr', s['id']), children=kids, onexit='out%d' % i)
    return check([S('A'), s], 'A')


def include(how: bool, initial: bool, trans: int, act: bool, nested: bool, cb: bool) -> str:
    """
    pre: 0 <= trans <= 2
    post: _ == ''
    """
    h, n = (True if how else False), (True if nested else False)
    t = [T('GO', pick(trans, [None, 'I1', 'I2']), None, 'onT' if (cb if D else n) else None)]
    back = [T('BACK', 'I1')]
    i2 = S('I2', trans=back, initial=('attr', 'I3'), children=[S('I3', trans=[T('OUT', 'I1')])]) if n else S('I2', trans=back)
    inc = dict(file='sub.scxml', how='src' if h else 'include', initial='I1' if initial else 'I2', states=[S('I1', trans=t, actions=[('entry',) + ACT[3]] if (act if D else n) else []), i2])
    return check([S('A', trans=[T('GO', 'P')]), S('P', include=inc)], 'A')


TARGETS = {
    'transitions': ('two transitions of one state (same/other event and target, guards, callbacks), one of another state', 400, 800),
    'entry_points': ('no/attribute/element entry points, one or two initial transitions with event and/or guard, parallel parents, order of children', 400, 800),
    'transition': ('one transition: 3 sources, 4 targets, 3 types, guard forms, callback', 400, 800),
    'actions': ('one or two actions out of 5 on entry/exit with callbacks in either order', 400, 800),
    'history': ('shallow/deep, default target and callback, position, parallel parents, second history', 400, 800),
    'state_callbacks': ('state, parallel and final states with every subset of callbacks, top level or nested, shared callbacks', 400, 800),
    'nesting': ('1-3 levels, transitions between levels, final siblings', 400, 800),
    'include': ('src attribute or xi:include of a second document', 400, 800),
    'timer_events': ('timers known from actions or only from events of transitions, final states, initial transitions and actions', 400, 800),
}
FUNCTIONS = ['parseScxml', 'parseScxmlStates', 'generateCppCode', 'generateFile', 'applySingleVariableToLine', 'applyGenVariablesToLine', 'prepareRegisterActionFunction', 'prepareRegisterTimerFunc',
             'prepareHsmcpp*Declaration', 'prepare*CallbackPtr', 'getCallbackName', 'getStateActions', 'isStateActionDefinition', 'validateIdentifier', 'getStateEnumValue', 'getEventEnumValue']
