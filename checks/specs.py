NA = {}


def _gen(mod):
    def drive(a, V):
        import sys, os
        sys.path.insert(0, os.path.join(V, 'gen'))
        import driver
        return driver.run(a, V, mod)
    return drive


GEN_TECH = 'symbolic execution of the real Python code with CrossHair (symbolic strings, integers and booleans; every path condition decided by Z3), contracts decided over all paths within bounds'
GEN_NOTE = ('Every path of the real generator functions for inputs within the bounds is executed symbolically and its result compared with an independent oracle; counterexamples are replayed with plain Python. '
            'Bounds: %s. A target which runs out of time is reported as not decided in the evidence. Trusted: CrossHair and its models of str, re and containers, Z3.')
SPECS = {
 'smoke': dict(runs=[dict(name='smoke', harness='t_smoke.cpp')]),
 'libc': dict(runs=[dict(name='libc', harness='t_libc.cpp')]),
 'C01': dict(runs=[dict(name='ids', harness='c01.cpp', params=dict(calls=3, any_id=1), thorough=dict(calls=4), reach=['end', 'all_accepted', 'cycle_refused', 'all_refused']),
                   dict(name='behaviour', harness='c01.cpp', params=dict(calls=3, any_id=0), thorough=dict(calls=4), reach=['end', 'all_accepted'])]),
 'C02': dict(runs=[dict(name='structure', harness='c02.cpp'),
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=5), thorough=dict(events=6)),
                   dict(name='refused_exits', harness='mix.cpp', params=dict(scen=0, events=3, veto=1), thorough=dict(events=4)),
                   dict(name='final_states', harness='mix.cpp', params=dict(scen=2, events=6), thorough=dict(events=8))]),
 'C03': dict(runs=[dict(name='order', harness='c03.cpp', reach=['end', 'deep', 'args3']),
                   dict(name='history', harness='mix.cpp', params=dict(scen=1, events=6), thorough=dict(events=7)),
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=4), thorough=dict(events=5)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=1, events=2), thorough=dict(events=3), reach=['end', 'members', 'functions', 'silent'])]),
 'C04': dict(runs=[dict(name='s%d' % i, harness='c04.cpp', params=dict(scen=i)) for i in range(3)] + [
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=5), thorough=dict(events=6)),
                   dict(name='history', harness='mix.cpp', params=dict(scen=1, events=5), thorough=dict(events=7)),
                   dict(name='refused_exits', harness='mix.cpp', params=dict(scen=0, events=3, veto=1), thorough=dict(events=4)),
                   dict(name='refused_entries', harness='mix.cpp', params=dict(scen=0, events=3, veto=2), thorough=dict(events=4)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=2, events=3), thorough=dict(events=4), reach=['end', 'members', 'functions', 'refused'])]),
 'C08': dict(runs=[dict(name='nested', harness='c08.cpp'),
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=4), thorough=dict(events=6))]),
 'C05': dict(runs=[dict(name='refused_exit', harness='c05.cpp', reach=['end', 'exit_refused']),
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=4, veto=1), thorough=dict(events=5)),
                   dict(name='history', harness='mix.cpp', params=dict(scen=1, events=5, veto=1), thorough=dict(events=6)),
                   dict(name='final_states', harness='mix.cpp', params=dict(scen=2, events=5, veto=1), thorough=dict(events=6)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=2, events=3), thorough=dict(events=4), reach=['end', 'members', 'functions', 'refused'])]),
 'C06': dict(runs=[dict(name='refused_entry', harness='c05.cpp', params=dict(mode=1), reach=['end', 'entry_refused']),
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=3, veto=2), thorough=dict(events=5)),
                   dict(name='history', harness='mix.cpp', params=dict(scen=1, events=4, veto=2), thorough=dict(events=6)),
                   dict(name='final_states', harness='mix.cpp', params=dict(scen=2, events=5, veto=2), thorough=dict(events=6)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=2, events=3), thorough=dict(events=4), reach=['end', 'members', 'functions', 'refused'])]),
 'C07': dict(runs=[dict(name='conditions', harness='c07.cpp', reach=['end', 'ignored', 'both', 'nested_false', 'entry_condition']),
                   dict(name='registration', harness='api.cpp', params=dict(focus=0, events=2), thorough=dict(events=3), reach=['end', 'members', 'functions'])]),
 'C09': dict(runs=[dict(name='from_outside', harness='c09.cpp', reach=['end', 'all', 'one', 'batch', 'no_entry_points']), dict(name='initial', harness='c09.cpp', params=dict(scen=1), reach=['end', 'all']),
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=4), thorough=dict(events=6)),
                   dict(name='pending_entries', harness='mix.cpp', params=dict(scen=3, events=4), thorough=dict(events=6)),
                   dict(name='refused_steps', harness='mix.cpp', params=dict(scen=0, events=3, veto=2), thorough=dict(events=4)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=0, events=2), thorough=dict(events=3), reach=['end', 'members', 'functions'])]),
 'C10': dict(runs=[dict(name='default', harness='c10.cpp', params=dict(events=4), thorough=dict(events=5), reach=['end', 'restored', 'default', 'entered']),
                   dict(name='nested', harness='c10.cpp', params=dict(scen=1, events=4), thorough=dict(events=5), reach=['end', 'restored', 'entered']),
                   dict(name='two_levels', harness='mix.cpp', params=dict(scen=1, events=7), thorough=dict(events=8)),
                   dict(name='two_levels_regions', harness='mix.cpp', params=dict(scen=1, events=5, region=1), thorough=dict(events=7)),
                   dict(name='refused_exits', harness='mix.cpp', params=dict(scen=1, events=5, veto=1), thorough=dict(events=6)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=3, events=4), thorough=dict(events=5), reach=['end', 'members', 'functions', 'history_default'])]),
 'C11': dict(runs=[dict(name='final', harness='c11.cpp', params=dict(events=4), thorough=dict(events=5), reach=['end', 'nested_final', 'top_final', 'left', 'left_by_own_event']),
                   dict(name='regions', harness='mix.cpp', params=dict(scen=2, events=7), thorough=dict(events=9)),
                   dict(name='pending_entries', harness='mix.cpp', params=dict(scen=3, events=4), thorough=dict(events=6)),
                   dict(name='refused_exits', harness='mix.cpp', params=dict(scen=2, events=4, veto=1), thorough=dict(events=6)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=3, events=4), thorough=dict(events=5), reach=['end', 'members', 'functions', 'history_default'])]),
 'C12': dict(runs=[dict(name='self', harness='c12.cpp', reach=['end', 'internal_taken', 'not_taken', 'external_taken']),
                   dict(name='registration', harness='api.cpp', params=dict(focus=0, events=2), thorough=dict(events=3), reach=['end', 'members', 'functions'])]),
 'C13': dict(runs=[dict(name='regions', harness='c13.cpp', params=dict(events=3), thorough=dict(events=4), reach=['end', 'shared_target', 'all_regions', 'leave_all', 'two_targets']),
                   dict(name='nested_regions', harness='mix.cpp', params=dict(scen=0, events=5), thorough=dict(events=6)),
                   dict(name='final_states', harness='mix.cpp', params=dict(scen=2, events=6), thorough=dict(events=8)),
                   dict(name='refused_exits', harness='mix.cpp', params=dict(scen=0, events=3, veto=1), thorough=dict(events=4))]),
 'C14': dict(runs=[dict(name='order', harness='c14.cpp', params=dict(sends=3), thorough=dict(sends=4, nested=2), reach=['end', 'from_callback'])]),
 'C15': dict(runs=[dict(name='clear', harness='c15.cpp', params=dict(sends=4), thorough=dict(sends=5), reach=['end', 'cleared', 'in_entry']),
                   dict(name='sync', harness='c15.cpp', params=dict(mode=1, sends=3), thorough=dict(sends=4), reach=['end', 'cleared', 'sync_discarded', 'sync_ok'])]),
 'C16': dict(runs=[dict(name='result', harness='c16.cpp', params=dict(events=2), thorough=dict(events=3), reach=['end', 'true', 'false', 'false_late', 'queued']),
                   dict(name='regions_refused_entry', harness='mix.cpp', params=dict(scen=0, events=3, veto=2, sync=1), thorough=dict(events=4)),
                   dict(name='final_states_refused_exit', harness='mix.cpp', params=dict(scen=2, events=4, veto=1, sync=1), thorough=dict(events=6)),
                   dict(name='history_refused', harness='mix.cpp', params=dict(scen=1, events=4, veto=2, sync=1), thorough=dict(events=6)),
                   dict(name='timeout', harness='c17.cpp', params=dict(mode=3, preempt=1), thorough=dict(preempt=2), reach=['end', 'timed_out', 'true', 'late']),
                   dict(name='senders', harness='c17s.cpp', config='std', params=dict(preempt=0, yields=3), thorough=dict(preempt=1), reach=['end', 'cleared', 'released', 'failed', 'while_processing'])]),
 'C17': dict(runs=[dict(name='processed', harness='c17.cpp', params=dict(mode=0, preempt=2), thorough=dict(preempt=3), reach=['end', 'true', 'false']),
                   dict(name='discarded', harness='c17.cpp', params=dict(mode=1, preempt=2), thorough=dict(preempt=3), reach=['end', 'discarded', 'processed']),
                   dict(name='released', harness='c17.cpp', params=dict(mode=2, preempt=2), thorough=dict(preempt=3), reach=['end', 'released', 'true']),
                   dict(name='timeout', harness='c17.cpp', params=dict(mode=3, preempt=1), thorough=dict(preempt=2), reach=['end', 'timed_out', 'true', 'late']),
                   dict(name='senders', harness='c17s.cpp', config='std', params=dict(preempt=0, yields=3), thorough=dict(preempt=1), reach=['end', 'cleared', 'released', 'failed', 'while_processing']),
                   dict(name='senders_preempted', harness='c17s.cpp', config='std', params=dict(preempt=1, yields=0), thorough=dict(preempt=2), reach=['end', 'cleared', 'released', 'failed'])]),
 'C18': dict(runs=[dict(name='possible', harness='c18.cpp', reach=['end', 'possible', 'impossible', 'entry_points']),
                   dict(name='pending', harness='c18p.cpp', params=dict(pending=2), thorough=dict(pending=2, transitions=4), reach=['end', 'possible', 'impossible', 'ignored'])]),
 'C19': dict(runs=[dict(name='failed', harness='c19.cpp', params=dict(events=2), thorough=dict(events=3), reach=['end', 'failed', 'ok', 'refused_exit', 'refused_entry']),
                   dict(name='regions_refused_entry', harness='mix.cpp', params=dict(scen=0, events=3, veto=2), thorough=dict(events=4)),
                   dict(name='regions_refused_exit', harness='mix.cpp', params=dict(scen=0, events=3, veto=1), thorough=dict(events=4)),
                   dict(name='history_refused_entry', harness='mix.cpp', params=dict(scen=1, events=4, veto=2), thorough=dict(events=6)),
                   dict(name='registration', harness='api.cpp', params=dict(focus=0, events=2), thorough=dict(events=3), reach=['end', 'members', 'functions'])]),
 'C20': dict(runs=[dict(name='init', harness='c20.cpp', reach=['end', 'failed_first', 'second', 'early', 'later']),
                   dict(name='threads', harness='c20s.cpp', config='std', params=dict(preempt=2), thorough=dict(preempt=3), reach=['end', 'sent'])]),
 'C21': dict(runs=[dict(name='nested', harness='c21.cpp', params=dict(events=2, acts=1), thorough=dict(events=2, acts=2), reach=['end', 'sent', 'dispatch_again', 'timer', 'action', 'kill']), dict(name='startup', harness='c21.cpp', params=dict(events=1, acts=0, startup_acts=1), thorough=dict(events=1, acts=1, startup_acts=2), reach=['end', 'sent', 'dispatch_again', 'timer', 'action', 'kill'])]),
 'C22': dict(runs=[dict(name='actions', harness='c22.cpp', params=dict(events=2), thorough=dict(events=3), reach=['end', 'transition_action', 'refused'])]),
 'C23': dict(runs=[dict(name='timers', harness='c23.cpp', params=dict(ops=4), thorough=dict(ops=5), reach=['end', 'expired', 'late_expiry', 'released', 'destroyed'])]),
 'C24': dict(runs=[dict(name='machines', harness='c24.cpp', params=dict(ops=5), thorough=dict(ops=6), reach=['end', 'full', 'released', 'stopped']),
                   dict(name='threads', harness='c24t.cpp', config='base', watch=True, params=dict(preempt=3), thorough=dict(preempt=4))]),
 'C25': dict(runs=[dict(name='registry', harness='c25.cpp', config='base', params=dict(ops=3), thorough=dict(ops=4), reach=['end', 'from_handler', 'unregistered', 'unknown', 'round', 'timer']),
                   dict(name='threads', harness='c25t.cpp', config='base', watch=True, params=dict(preempt=2), thorough=dict(preempt=3))]),
 'C26': dict(runs=[dict(name='rounds', harness='c26.cpp', config='base', params=dict(events=3), thorough=dict(events=4), reach=['end', 'declined', 'second_round', 'stop_in_handler'])]),
 'C27': dict(runs=[dict(name='actions', harness='c27.cpp', config='base', params=dict(ops=4, planned=3), thorough=dict(ops=5))]),
 'C28': dict(runs=[dict(name='timers', harness='c28.cpp', config='base', params=dict(ops=4), thorough=dict(ops=5), reach=['end', 'started', 'refused', 'restarted', 'stopped', 'unregistered', 'single', 'repeating', 'late'])]),
 'C29': dict(runs=[dict(name='wakeups', harness='c29.cpp', config='std', params=dict(preempt=2, ops=2), thorough=dict(preempt=3))]),
 'C30': dict(runs=[dict(name='dispatcher', harness='c30.cpp', config='std', params=dict(preempt=1, **{'yield': 1}), thorough=dict(preempt=2)),
                   dict(name='machine', harness='c30m.cpp', config='std', params=dict(preempt=2, **{'yield': 1}), thorough=dict(preempt=3), reach=['end', 'expired'])]),
 'C31': dict(runs=[dict(name='timers', harness='c31.cpp', config='std', params=dict(preempt=1, ops=4), thorough=dict(preempt=2, ops=5), reach=['end', 'fired']),
                   dict(name='long', harness='c31.cpp', config='std', params=dict(mode=1, preempt=1), reach=['end', 'late'])]),
 'C32': dict(runs=[dict(name='polls', harness='c32.cpp', config='arduino', params=dict(ops=4), thorough=dict(ops=6), reach=['end', 'fired', 'wrapped', 'restart', 'delivered', 'stopped'])]),
 'C33': dict(runs=[dict(name='histories', harness='c33.cpp', config='glib', params=dict(ops=4), thorough=dict(ops=5), reach=['end', 'fired', 'delivered', 'stopped', 'own', 'nested', 'from_timer', 'stop_timer']),
                   dict(name='faults', harness='c33.cpp', config='glib', params=dict(ops=2, early=1, faults=1, interrupted=2), thorough=dict(ops=3), reach=['end', 'failed', 'delivered']),
                   dict(name='restart', harness='c33.cpp', config='glib', params=dict(ops=4, restart=1, own=0), thorough=dict(ops=5), reach=['end', 'restarted']),
                   dict(name='threads', harness='c33.cpp', config='glib', watch=True, params=dict(threads=1, own=0, preempt=2, ops=3), thorough=dict(preempt=3), reach=['end', 'fired', 'during'])]),
 'C34': dict(runs=[dict(name='glibmm', harness='c34mm.cpp', config='glibmm', params=dict(ops=4), thorough=dict(ops=5), reach=['end', 'fired', 'delivered', 'stopped', 'own', 'nested', 'from_timer', 'stop_timer']),
                   dict(name='glibmm_restart', harness='c34mm.cpp', config='glibmm', params=dict(ops=4, restart=1, early=0, own=0), thorough=dict(ops=4, early=1), reach=['end', 'restarted']),
                   dict(name='glibmm_threads', harness='c34mm.cpp', config='glibmm', watch=True, params=dict(threads=1, own=0, preempt=2, ops=3, timers=0, unregister=1), thorough=dict(preempt=3), reach=['end', 'fired']),
                   dict(name='qt', harness='c34qt.cpp', config='qt', params=dict(ops=4), thorough=dict(ops=5), reach=['end', 'fired', 'delivered', 'stopped', 'nested', 'from_timer', 'stop_timer']),
                   dict(name='qt_restart', harness='c34qt.cpp', config='qt', params=dict(ops=4, restart=1, faults=1), thorough=dict(early=1), reach=['end', 'restarted', 'failed']),
                   dict(name='qt_threads', harness='c34qt.cpp', config='qt', watch=True, params=dict(threads=1, preempt=2, ops=3, unregister=1), thorough=dict(preempt=3), reach=['end', 'fired']),
                   dict(name='freertos', harness='c34rtos.cpp', config='freertos', params=dict(ops=3), thorough=dict(ops=4), reach=['end', 'fired', 'delivered', 'stopped', 'nested', 'from_timer', 'stop_timer']),
                   dict(name='freertos_ticks', harness='c34rtos.cpp', config='freertos', params=dict(ops=2, ticks=1, faults=1), thorough=dict(ops=3), reach=['end', 'fired', 'failed']),
                   dict(name='freertos_threads', harness='c34rtos.cpp', config='freertos', watch=True, params=dict(threads=1, preempt=2, ops=2, unregister=1), thorough=dict(preempt=3), reach=['end', 'fired'])]),
 'C35': dict(runs=[dict(name='pending', harness='c35.cpp', params=dict(ops=3, after=1), thorough=dict(ops=4, after=2), reach=['end', 'released', 'destroyed', 'by_action', 'dispatcher_first']),
                   dict(name='threads', harness='c35t.cpp', params=dict(preempt=2), thorough=dict(preempt=3), reach=['end', 'was_running'])]),
 'C36': dict(runs=[dict(name='senders', harness='c36.cpp', config='std', watch=True, params=dict(preempt=1, per=2), thorough=dict(preempt=2)),
                   dict(name='interleaved', harness='c36.cpp', config='std', watch=True, params=dict(preempt=2, per=1), thorough=dict(preempt=3))]),
 'C37': dict(runs=[dict(name='locks', harness='c37.cpp', config='std', params=dict(preempt=1), thorough=dict(scope=2), reach=['end', 'alive']),
                   dict(name='callbacks', harness='c37.cpp', config='std', params=dict(preempt=1, scope=1), thorough=dict(preempt=2)),
                   dict(name='query', harness='c18p.cpp', params=dict(pending=2, condition_sends=1), thorough=dict(pending=2, transitions=4), reach=['end', 'sent'])]),
 'C38': dict(runs=[dict(name='values', harness='c38.cpp', config='variant', params=dict(len=3), thorough=dict(len=6), reach=['end', 'integer', 'double', 'string', 'bytes', 'custom'])]),
 'C39': dict(runs=[dict(name='numbers', harness='c39.cpp', config='variant', reach=['end', 'number', 'double', 'unsupported']),
                   dict(name='text', harness='c39.cpp', config='variant', params=dict(mode=1, len=4), thorough=dict(len=6), reach=['end', 'parsed', 'no_number']),
                   dict(name='range', harness='c39.cpp', config='variant', params=dict(mode=2), thorough=dict(prefixes=6, digits=4), reach=['end', 'overflow', 'fits']),
                   dict(name='decimal', harness='c39.cpp', config='variant', params=dict(mode=3), reach=['end', 'decimal'])]),
 'C40': dict(runs=[dict(name='sequences', harness='c40.cpp', config='variant', params=dict(ops=3), thorough=dict(ops=4), reach=['end', 'copied', 'moved', 'changed', 'element'])]),
 'C41': dict(runs=[dict(name='integers', harness='c41.cpp', config='variant', reach=['end', 'less', 'equal', 'greater']),
                   dict(name='strings', harness='c41.cpp', config='variant', params=dict(mode=1, len=2), thorough=dict(len=3), reach=['end', 'less', 'equal', 'greater']),
                   dict(name='keys', harness='c41.cpp', config='variant', params=dict(mode=2, keys=3), reach=['end', 'found']),
                   dict(name='others', harness='c41.cpp', config='variant', params=dict(mode=3), reach=['end', 'less', 'equal', 'greater'])]),
 'C42': dict(runs=[dict(name='small', harness='c42.cpp', config='variant', thorough=dict(all=1), reach=['end', 'integer']),
                   dict(name='wide', harness='c42.cpp', config='variant', params=dict(mode=1, window=100), thorough=dict(window=2000), reach=['end', 'integer']),
                   dict(name='text', harness='c42.cpp', config='variant', params=dict(mode=2, len=4), reach=['end', 'text']),
                   dict(name='containers', harness='c42.cpp', config='variant', params=dict(mode=3, size=3), reach=['end', 'containers']),
                   dict(name='doubles', harness='c42.cpp', config='variant', params=dict(mode=4), reach=['end', 'double'])]),
 'C43': dict(runs=[dict(name='containers', harness='c43.cpp', config='variant', params=dict(size=3), thorough=dict(size=4))]),
 'C44': dict(runs=[dict(name='sequences', harness='c44.cpp', config='locks', params=dict(ops=3), thorough=dict(ops=4), reach=['end', 'constructed', 'assigned', 'released', 'guard', 'nested']),
                   dict(name='threads', harness='c44t.cpp', config='locks', watch=True, params=dict(preempt=2), thorough=dict(preempt=3))]),
 'C45': dict(runs=[dict(name='sequences', harness='c45.cpp', config='locks', params=dict(ops=4), thorough=dict(ops=6), reach=['end', 'set']),
                   dict(name='flag', harness='c45.cpp', config='locks', watch=True, params=dict(mode=1, preempt=3), thorough=dict(preempt=5)),
                   dict(name='condition', harness='c45.cpp', config='locks', watch=True, params=dict(mode=2, preempt=3), thorough=dict(preempt=4), reach=['end', 'woken', 'timed_out'])]),
 'C46': dict(runs=[dict(name='records', harness='c46.cpp', config='debug', params=dict(events=2), thorough=dict(events=3), reach=['end', 'completed', 'failed', 'actions']),
                   dict(name='opening', harness='c46.cpp', config='debug', params=dict(events=2, opening=1), thorough=dict(events=3), reach=['end', 'refused', 'disabled', 'completed', 'failed', 'actions']),
                   dict(name='history', harness='c46.cpp', config='debug', params=dict(events=3, history=1), thorough=dict(events=4), reach=['end', 'history', 'completed', 'failed']),
                   dict(name='numbers', harness='c46.cpp', config='debug', params=dict(events=1, numbers=1), thorough=dict(events=2), reach=['end', 'completed']),
                   dict(name='text', harness='c46.cpp', config='debug', params=dict(events=1, text=1), thorough=dict(events=2), reach=['end', 'completed', 'text'])]),
 'C47': dict(driver=_gen('c47'), technique=GEN_TECH, note=GEN_NOTE % 'the string lengths and alphabets listed per target in gen/c47.py (names of up to 2 Unicode or 4 ASCII characters, conditions and scripts built from fixed text with 1-4 symbolic characters)'),
 'C49': dict(driver=_gen('c49'), technique=GEN_TECH, note=GEN_NOTE % 'machine descriptions of up to 8 states whose structure is chosen by the symbolic inputs listed per target in gen/c49.py, fixed names, the templates of the repository'),
 'C50': dict(driver=_gen('c50'), technique=GEN_TECH, note=GEN_NOTE % 'machine descriptions of up to 8 states whose structure is chosen by the symbolic inputs listed per target in gen/c50.py, fixed names (and a set of names which contain each other)'),
 'C48': dict(runs=[dict(name='two', harness='c48.cpp', params=dict(ops=3), thorough=dict(ops=4), reach=['end', 'timer', 'released'])]),
}
