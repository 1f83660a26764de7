#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from the descriptions here."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), hook=None, na=None, note=None, technique=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mechanism=mechanism,
                      state=state, observe=observe, hook=hook, na=na,
                      note=note, technique=technique))


def mm(*pairs):
    return [{'name': nn, 'where': ww} for nn, ww in pairs]


D = 'sfepy/discrete/'
S = 'sfepy/solvers/'
H = 'sfepy/homogenization/'
B = 'sfepy/base/'

prop('C01', 'A restarted simulation continues exactly like the uninterrupted one',
     'A time-dependent simulation with a prescribed sequence of time steps'
     ' that dies at any moment and is resumed from any of the restart files'
     ' it left computes, in every remaining step, the same times and the same'
     ' values of all state variables as if it had never been interrupted,'
     ' however many times this happens and whatever history depth the'
     ' variables have. It neither repeats nor skips a time step; resuming from'
     ' the restart file of the last step computes no further step and'
     ' reports the final state. Saving restart files does not change the'
     ' computed results.',
     ['crash_points', 'histories', 'configurations'],
     'any crash step and point, any chain of crashes and resumptions, any'
     ' surviving restart file, any combination of variables, history depths,'
     ' boundary conditions, materials and (elasto-dynamic or general) time'
     ' stepping solver',
     'The tests restart one linear heat problem once from one chosen step'
     ' and compare one number; crash points, repeated restarts, histories'
     ' deeper than one step and elastodynamics are never resumed.',
     [D + 'problem.py', D + 'variables.py', S + 'ts.py', S + 'ts_solvers.py'],
     mm(('restart file writing and reading',
         D + 'problem.py: Problem.save_restart, Problem.load_restart'),
        ('resumption in the time stepping initialization',
         D + 'problem.py: Problem.get_tss_functions'),
        ('time stepper state', S + 'ts.py: get_state, set_state'),
        ('skipping the initial step of a resumed run',
         S + 'ts_solvers.py: SimpleTimeSteppingSolver.__call__,'
         ' ElastodynamicsBaseTS.get_initial_vec')),
     [{'name': 'variable history', 'meaning': 'DOF vectors of the current and'
       ' previous time steps', 'where': D + 'variables.py: Variable.data'}],
     ['step_hook of Problem.solve', 'final values of the state variables'],
     note='Seeded search over crash points and resumptions against the'
     ' uninterrupted run as the reference; a crash abandons all in-memory'
     ' objects at a callback boundary, files survive. Trusts HDF5 and the'
     ' in-process model of process death.')

prop('C12', 'Rejected attempts of adaptive time stepping leave no trace',
     'When nonlinear solves fail in adaptive time stepping, the accepted'
     ' trajectory is the one of a simulation that takes only the accepted time'
     ' steps, and a rejected attempt is never reported as a finished step.'
     ' The attempted times and step sizes follow the documented reduction,'
     ' reduction limit, waiting and increase rules. Time strictly increases'
     ' over finished steps, every step is finished once and the simulation'
     ' ends at the first step that reaches the final time.',
     ['fault_sequences', 'histories', 'configurations'],
     'any sequence of failing, slowly converging and succeeding nonlinear'
     ' solves, any adaptivity parameters, any time-dependent boundary'
     ' conditions and materials, variables with or without history',
     'Adaptive stepping is only run by one example in which solver outcomes'
     ' cannot be chosen, and no test looks at the accepted states or step'
     ' sizes.',
     [S + 'ts_solvers.py', S + 'ts.py', D + 'problem.py'],
     mm(('step size adaptation', S + 'ts_solvers.py: adapt_time_step'),
        ('retry loop', S + 'ts_solvers.py:'
         ' AdaptiveTimeSteppingSolver.solve_step'),
        ('variable time stepper', S + 'ts.py: VariableTimeStepper'),
        ('re-evaluation of conditions and materials for a new time',
         D + 'problem.py: prestep_fun in Problem.get_tss_functions')),
     [{'name': 'adaptivity state', 'meaning': 'current reduction and waiting'
       ' counter', 'where': S + 'ts_solvers.py:'
       ' AdaptiveTimeSteppingSolver.adt'}],
     ['nonlinear solver calls (time, dt)', 'step_hook of Problem.solve'],
     note='Seeded fault sequences over solver attempts; a reference model of'
     ' the documented control rules is compared at every attempt and the'
     ' states are compared with a fault-free replay of the accepted steps.')

exec(open(os.path.join(HERE, 'props_more.py')).read())

ORDER = sorted(PROPS, key=lambda pp: pp['id'])


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fd:
        for pp in ORDER:
            anchors = {'files': pp['files'], 'mechanism': pp['mechanism']}
            if pp['state']:
                anchors['state'] = list(pp['state'])
            if pp['observe']:
                anchors['observe_at'] = list(pp['observe'])
            anchors['hook_needed'] = pp['hook']
            fd.write(json.dumps({
                'id': pp['id'], 'title': pp['title'],
                'statement': pp['statement'],
                'quantifier': {'over': pp['over'], 'text': pp['text']},
                'why_tests_cant': pp['why'], 'anchors': anchors}) + '\n')

    names = [nn.split('_')[0].upper()
             for nn in os.listdir(os.path.join(VERIF, 'dst', 'props'))
             if nn.startswith('c')]
    checks, na = [], []
    for pp in ORDER:
        if pp['id'] in names and not pp['na']:
            checks.append({
                'property': pp['id'],
                'quick_cmd': './check.sh %s quick' % pp['id'],
                'thorough_cmd': './check.sh %s thorough' % pp['id'],
                'evidence_file': 'evidence/%s.json' % pp['id'],
                'technique': pp['technique'] or 'deterministic simulation with'
                ' fault injection (seeded search over schedules and faults)',
                'level': 'exploration',
                'level_note': pp['note'],
            })
        else:
            na.append({'property': pp['id'],
                       'reason': pp['na'] or 'no check built yet'})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'Checks are seeded by VERIF_SEED. No hooks in /repo are'
           ' needed: seams are the user callbacks, solver and pool objects,'
           ' pipe/process objects, MPI communicator, libc file calls'
           ' (LD_PRELOAD) and allocator.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fd:
        json.dump(man, fd, indent=1)
        fd.write('\n')
    print(len(ORDER), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
