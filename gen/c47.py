"""C47: names, conditions and action scripts. Every target returns '' or a description of what is wrong."""
import os
from base import g, el, Rejected

D = 1 if os.environ.get('VF_TIER') == 'thorough' else 0    # deeper bounds

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGITS = '0123456789'
ACTIONS = ['start_timer', 'stop_timer', 'restart_timer', 'transition']


def is_name(s):
    """C++ identifier: Latin letters, digits and underscores, not starting with a digit."""
    if len(s) == 0 or s[0] not in LETTERS:
        return False
    for c in s:
        if c not in LETTERS and c not in DIGITS:
            return False
    return True


def verdict(want, fn):
    try:
        r = fn()
    except (Rejected, SystemExit, ValueError):
        return 'rejected' if want else ''
    return '' if want else 'accepted as %r' % (r,)


def ident(s: str) -> str:
    """
    pre: len(s) <= 2
    post: _ == ''
    """
    return ident_check(s)


def ident_check(s):
    want = is_name(s)
    try:
        r = g.validateIdentifier(s)
    except (Rejected, SystemExit, ValueError):
        r = False
    return '' if bool(r) == want else 'name %s although it is %s' % ('accepted' if r else 'rejected', 'valid' if want else 'not valid')


def ident_ascii(s: str) -> str:
    """
    pre: len(s) <= 4 and all(ord(c) < 128 for c in s)
    post: _ == ''
    """
    return ident_check(s)


def ident_ascii_long(s: str) -> str:
    """
    pre: len(s) <= 7 and all(ord(c) < 128 for c in s)
    post: _ == ''
    """
    return ident_check(s)


def state_name(s: str) -> str:
    """
    pre: 1 <= len(s) <= 2
    post: _ == ''
    """
    want = is_name(s)
    root = el('scxml', {}, None, [el('state', {'id': s})])

    def run():
        st = g.parseScxmlStates(root, '', '')
        if len(st) != 1 or st[0]['id'] != s:
            raise AssertionError('state lost')
        return st[0]['id']
    return verdict(want, run)


def event_name(s: str, where: int) -> str:
    """
    pre: 1 <= len(s) <= 2 and 0 <= where <= 2
    post: _ == ''
    """
    want = is_name(s)
    if where == 0:
        ch = [el('state', {'id': 'A'}, None, [el('transition', {'event': s, 'target': 'A'})])]
        get = lambda st: st[0]['transitions'][0]['event']
    elif where == 1:
        ch = [el('final', {'id': 'A', 'event': s})]
        get = lambda st: st[0]['final_event']
    else:
        ch = [el('initial', {}, None, [el('transition', {'target': 'A', 'event': s})]), el('state', {'id': 'A'})]
        get = lambda st: st[0]['initial_state_transitions'][0]['event']

    def run():
        v = get(g.parseScxmlStates(el('state', {'id': 'P'}, None, ch), '', ''))
        if v != s:
            raise AssertionError('event changed')
        return v
    return verdict(want, run)


def callback_name(s: str, where: int) -> str:
    """
    pre: 1 <= len(s) <= 2 and 0 <= where <= 3
    post: _ == ''
    """
    want = is_name(s)
    if where == 0:
        e = el('onentry', {}, None, [el('script', {}, s)])
    elif where == 1:
        e = el('onexit', {}, None, [el('script', {}, s)])
    elif where == 2:
        e = el('invoke', {'srcexpr': s})
    else:
        e = el('script', {}, s)

    def run():
        v = g.getCallbackName(e)
        if v != s:
            raise AssertionError('callback changed')
        return v
    return verdict(want, run)


def expect_cond(text):
    """(must be accepted, may be accepted, callback, value)"""
    parts = text.split(' is ')
    if len(parts) > 2:
        return (False, False, '', '')
    cb, val = parts[0], parts[1] if len(parts) == 2 else 'true'
    scb, sval = cb.strip(' \t'), val.strip(' \t').lower()
    may = is_name(scb) and sval in ('true', 'false')
    return (may, may, scb, sval)


def cond_check(text):
    must, may, cb, val = expect_cond(text)
    try:
        r = g.getCallbackName(el('transition', {'cond': text}))
    except (Rejected, SystemExit, ValueError):
        return 'condition rejected' if must else ''
    if not may:
        return 'invalid condition accepted as %r' % (r,)
    return '' if list(r) == [cb, val] else 'parsed as %r' % (r,)


def cond_plain(s: str) -> str:
    """
    pre: 1 <= len(s) <= 2 and all(ord(c) < 128 for c in s)
    post: _ == ''
    """
    return cond_check(s)


def cond_value(v: str) -> str:
    """
    pre: len(v) <= 2 and all(ord(c) < 128 for c in v)
    post: _ == ''
    """
    return cond_check('cb is ' + v)


def cond_forms(cb: str, form: int, pad: int) -> str:
    """
    pre: len(cb) <= 1 + D and all(ord(c) < 128 for c in cb) and 0 <= form <= 8 and 0 <= pad <= 2
    post: _ == ''
    """
    t = cb
    for i, f in enumerate(['', ' is true', ' is false', ' is True', ' is FALSE', ' is true is true', ' is not true', ' is truefalse', ' is false is']):
        if form == i:
            t = cb + f
    if pad == 1:
        t = ' ' + t
    elif pad == 2:
        t = t + '\t'
    return cond_check(t)


def cond_near(a: str, b: str, neg: bool) -> str:
    """
    pre: len(a) <= 1 and len(b) <= 1 and all(32 <= ord(c) < 127 for c in a + b)
    post: _ == ''
    """
    return cond_check('cb is ' + a + ('false' if neg else 'true') + b)


def cond_separator(a: str) -> str:
    """
    pre: len(a) == 4 and all(32 <= ord(c) < 127 for c in a)
    post: _ == ''
    """
    return cond_check('cb' + a + 'true')


def expect_action(text):
    """None: not specified; else (is action, function, arguments)."""
    if '\n' in text or '\r' in text:
        return None
    for a in ACTIONS:
        if text.startswith(a + '(') and text.endswith(')'):
            return (True, a, text[len(a) + 1:-1])
    return (False, '', '')


def action_check(text):
    want = expect_action(text)
    if want is None:
        return ''
    r = g.isStateActionDefinition(text)
    if bool(r[0]) != want[0]:
        return 'script %s as action' % ('recognised' if r[0] else 'not recognised')
    if not want[0]:
        return ''
    if r[1] != want[1]:
        return 'action %r' % (r[1],)
    args = want[2].strip(' \t').split(',')
    if want[2].strip(' \t') == '':
        return ''
    if [x.strip(' \t') for x in r[2]] != [x.strip(' \t') for x in args]:
        return 'arguments %r' % (r[2],)
    return ''


def pick(i, values):
    for k, v in enumerate(values):
        if i == k:
            return v
    return values[-1]


def action_args(n: int, args: str) -> str:
    """
    pre: 0 <= n < 4 and len(args) <= 2 + D and all(32 <= ord(c) < 127 for c in args)
    post: _ == ''
    """
    return action_check(pick(n, ACTIONS) + '(' + args + ')')


def action_many_args(a: str, b: str, c: str, count: int) -> str:
    """
    pre: len(a) == 1 and len(b) <= 1 and len(c) <= 1 and 1 <= count <= 4 and all(32 < ord(x) < 127 and x != ',' for x in a + b + c)
    post: _ == ''
    """
    items = [a, b, c, 'X']
    if count <= 1:
        items = items[:1]
    elif count == 2:
        items = items[:2]
    elif count == 3:
        items = items[:3]
    r = g.isStateActionDefinition('transition(' + ','.join(items) + ')')
    return '' if r[0] and r[1] == 'transition' and [x.strip() for x in r[2]] == items else 'parsed as %r' % (r,)


def action_context(n: int, pre: str, post: str) -> str:
    """
    pre: 0 <= n < 2 + 2 * D and len(pre) <= 1 and len(post) <= 1 and all(32 <= ord(c) < 127 for c in pre + post)
    post: _ == ''
    """
    return action_check(pre + pick(n, ACTIONS) + '(X)' + post)


def action_name(n: int, pos: int, c: str) -> str:
    """
    pre: 2 * (1 - D) <= n < 4 and 0 <= pos <= 13 and len(c) <= 1 and all(32 <= ord(x) < 127 for x in c)
    post: _ == ''
    """
    t = pick(n, ACTIONS) + '('
    for i in range(len(t)):
        if pos == i:
            t = t[:i] + c + t[i + 1:]
            break
    return action_check(t + 'X)')


def script_use(n: int, s: str, exit_node: bool, both: int) -> str:
    """
    pre: 0 <= n < 4 and len(s) == 1 and all(ord(c) < 128 for c in s) and 0 <= both <= 2
    post: _ == ''
    """
    # actions and the callback may stand in one node in any order: actions are never taken for the callback and the other way round
    tag = 'onexit' if exit_node else 'onentry'
    act = pick(n, ACTIONS) + '(T,5)'
    scripts = [el('script', {}, act)]
    if both == 1:
        scripts = [el('script', {}, s)] + scripts
    elif both == 2:
        scripts = scripts + [el('script', {}, s)]
    node = el('state', {'id': 'A'}, None, [el(tag, {}, None, scripts)])
    ok = both == 0 or is_name(s)
    try:
        st = g.parseScxmlStates(el('scxml', {}, None, [node]), '', '')[0]
    except (Rejected, SystemExit, ValueError):
        return 'rejected' if ok else ''
    if not ok:
        return 'accepted %r' % (st,)
    if st.get(tag) != (s if both else None):
        return 'callback %r' % (st.get(tag),)
    acts = st['actions'].get(tag + '_actions')
    if acts is None or len(acts) != 1 or len(st['actions']) != 1:
        return 'actions %r' % (st['actions'],)
    return '' if acts[0]['action'] == pick(n, ACTIONS) and [x.strip() for x in acts[0]['args']] == ['T', '5'] else 'actions %r' % (acts,)


TARGETS = {
    # name: (bounds, seconds allowed in the quick tier (0: not run), in the thorough tier)
    'cond_forms': ('up to 1 (thorough: 2) ASCII characters followed by one of 9 forms, optional leading/trailing white space', 250, 600),
    'action_name': ('2 (thorough: 4) action names with any one character replaced or removed', 250, 600),
    'action_args': ('4 actions, argument text up to 2 (thorough: 3) printable ASCII characters', 250, 600),
    'action_context': ('2 (thorough: 4) actions with up to one printable character before and after', 200, 600),
    'cond_near': ('true/false with one printable character before and/or after', 200, 400),
    'cond_separator': ('any 4 printable characters in place of " is "', 250, 500),
    'action_many_args': ('1-4 arguments of up to one printable character', 150, 300),
    'script_use': ('one action and an optional callback of one ASCII character in either order, entry and exit', 200, 400),
    'callback_name': ('callback names of 1-2 characters, any Unicode; entry, exit, state and transition callbacks', 200, 400),
    'event_name': ('event names of 1-2 characters, any Unicode; of transitions, final states and initial transitions', 200, 400),
    'ident': ('names up to 2 characters, any Unicode', 60, 120),
    'ident_ascii': ('names up to 4 ASCII characters', 120, 240),
    'state_name': ('state ids of 1-2 characters, any Unicode', 120, 300),
    'cond_plain': ('conditions of 1-2 ASCII characters', 120, 300),
    'cond_value': ('"cb is " followed by up to 2 ASCII characters', 120, 300),
    'ident_ascii_long': ('names up to 7 ASCII characters', 0, 800),
}
FUNCTIONS = ['validateIdentifier', 'getCallbackName', 'isStateActionDefinition', 'getStateActions', 'parseScxmlStates', 'xmlFind', 'xmlFindAll', 'getTag']
