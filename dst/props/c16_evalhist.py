"""
C16: results of evaluation depend on the present state only.

A random history of operations (changes of states, parameters, history, time,
time step, materials, boundary conditions, mesh coordinates; evaluations in
various modes, solves, failing evaluations) is applied to one problem.  After
each evaluation the result is compared with a new problem that was only
brought to the same present state by the shortest way.
"""
import numpy as nm

from dst import core
from dst import problems as P


class SimFault(Exception):
    pass


EXPRS = {
    # name: (expression, modes)
    'mat': ('ev_integrate_mat.i.Omega(m.D, T)', ('eval', 'el_avg', 'qp')),
    'val': ('ev_integrate.i.Omega(T)', ('eval', 'el_avg', 'qp')),
    'val3': ('ev_integrate.i3.Omega(T)', ('eval', 'qp')),
    'grad': ('ev_grad.i.Omega(T)', ('eval', 'el_avg', 'qp')),
    'gradw': ('ev_grad.i.Omega(w)', ('eval', 'qp')),
    'dgrad': ('ev_grad.i.Omega(dT/dt)', ('eval', 'qp')),
    'dval': ('ev_integrate.i.Omega(dT/dt)', ('eval', 'qp')),
    'prev': ('ev_integrate.i.Omega(T[-1])', ('eval', 'qp')),
    'pgrad': ('ev_grad.i.Omega(T[-1])', ('eval', 'qp')),
    'surf': ('ev_integrate.i.Bottom(T)', ('eval', 'qp')),
    'q': ('ev_integrate.i.Omega(q)', ('eval', 'qp')),
    'dq': ('ev_integrate.i.Omega(dq/dt)', ('eval', 'qp')),
    'qprev': ('ev_grad.i.Omega(q[-1])', ('eval', 'qp')),
    'lap': ('dw_laplace.i.Omega(m.D, q, T)', ('eval',)),
    'elap': ('de_laplace.i.Omega(m.D, q, T)', ('eval',)),
    'edot': ('de_dot.i.Omega(k.c, q, T)', ('eval',)),
    'edotp': ('de_dot.i.Omega(k.c, q, T[-1])', ('eval',)),
    'edotd': ('de_dot.i.Omega(k.c, q, dT/dt)', ('eval',)),
    'wlap': ('dw_laplace.i.Omega(m.D, s, T)', ('weak', 'matrix')),
    'wdot': ('dw_dot.i.Omega(s, dT/dt)', ('weak', 'matrix')),
    'wprev': ('dw_dot.i.Omega(k.c, s, T[-1])', ('weak',)),
    'welap': ('de_laplace.i.Omega(m.D, s, T)', ('weak', 'matrix')),
    'wedot': ('de_dot.i.Omega(k.c, s, T)', ('weak', 'matrix')),
    'wedotp': ('de_dot.i.Omega(k.c, s, T[-1])', ('weak',)),
    'wsurf': ('dw_dot.i.Bottom(k.c, s, T)', ('weak', 'matrix')),
    'wqw': ('dw_dot.i.Omega(m.D, s, q)', ('weak',)),
    'flux': ('de_surface_flux.i.Bottom(m.K, q, T)', ('eval',)),
    'fluxp': ('de_surface_flux.i.Bottom(m.K, q, T[-1])', ('eval',)),
    'esurf': ('de_dot.i.Bottom(k.c, q, T)', ('eval',)),
    'esurfd': ('de_dot.i.Bottom(k.c, q, dT/dt)', ('eval',)),
    'wflux': ('de_surface_flux.i.Bottom(m.K, s, T)', ('weak', 'matrix')),
    'edots2': ('de_dot.i.Omega(k.c, q, T) + de_dot.i3.Omega(m.D, q, T)'
               ' + de_laplace.i.Omega(k.r, T, q)', ('eval',)),
    'multi': ('ev_integrate.i.Omega(T) + 2.0 * ev_integrate.i3.Omega(T)',
              ('eval',)),
}

ELEXPRS = {
    'strain': ('ev_cauchy_strain.i.Omega(T)', ('eval', 'el_avg', 'qp')),
    'stress': ('ev_cauchy_stress.i.Omega(el.D, T)', ('eval', 'qp')),
    'div': ('ev_div.i.Omega(T)', ('eval', 'qp')),
    'val': ('ev_integrate.i.Omega(T)', ('eval', 'qp')),
    'le': ('dw_lin_elastic.i.Omega(el.D, s, T)', ('weak', 'matrix')),
    'ele': ('de_lin_elastic.i.Omega(el.D, s, T)', ('weak', 'matrix')),
    'neo': ('dw_tl_he_neohook.i.Omega(el.mu, s, T)', ('weak', 'matrix')),
    'bulk': ('dw_tl_bulk_penalty.i.Omega(el.kk, s, T)', ('weak', 'matrix')),
    'vol': ('ev_tl_volume_surface.i.Bottom(T)', ('eval',)),
    'prev': ('ev_cauchy_strain.i.Omega(T[-1])', ('eval', 'qp')),
    'dstr': ('ev_cauchy_strain.i.Omega(dT/dt)', ('eval', 'qp')),
    'mass': ('de_mass.i.Omega(ms.rho, ms.lumping, ms.beta, s, T)',
             ('weak', 'matrix')),
    'massp': ('de_mass.i.Omega(ms.rho, ms.lumping, ms.beta, s, T[-1])',
              ('weak',)),
    'lepar': ('dw_lin_elastic.i.Omega(el.D, q, T)', ('eval',)),
    'elepar': ('de_lin_elastic.i.Omega(el.D, q, T)', ('eval',)),
}


def rvec(seed, n, amp=1.0):
    return amp * nm.random.RandomState(seed).uniform(-1.0, 1.0, n)


class World(object):
    """One problem together with the model of its present state."""

    def __init__(self, p, model=None):
        self.p = p
        self.calls = 0
        self.fail_at = None
        self.mat_a = 1.0
        kind = p['kind']
        shape = p['shape']
        dim = len(shape)
        nc = 1 if kind == 'heat' else 'vector'
        self.nc = 1 if kind == 'heat' else dim
        hist = p['history']
        regions = {
            'Omega': 'all',
            'Left': ('vertices in (x < 1e-6)', 'facet'),
            'Right': ('vertices in (x > %.12g)' % (1.0 - 1e-6), 'facet'),
            'Bottom': ('vertices in (y < 1e-6)', 'facet'),
        }

        def mat_fun(ts, coors, mode=None, **kwargs):
            if mode != 'qp':
                return
            self.tick('mat_fun')
            time = 0.0 if ts is None else ts.time
            val = 0.2 + 0.1 * coors[:, :1] + 0.05 * nm.cos(time)
            val = val.reshape((-1, 1, 1))
            eye = nm.eye(coors.shape[1])[None]
            return {'D': self.mat_a * val, 'K': self.mat_a * val * eye}

        def bc_fun(ts, coors, **kwargs):
            self.tick('bc_fun')
            return 0.1 * nm.sin(ts.time) * (1 + coors[:, 1])

        def nfun(u):
            self.tick('nfun')
            return 0.1 * u**3

        def ndfun(u):
            self.tick('ndfun')
            return 0.3 * u**2

        fields = {'t': ('real', nc, 'Omega', p['order'])}
        variables = {
            'T': {'name': 'T', 'kind': 'unknown field', 'field': 't',
                  'order': 0, 'history': hist},
            's': ('test field', 't', 'T'),
            'q': {'name': 'q', 'kind': 'parameter field', 'field': 't',
                  'like': None, 'history': hist},
        }
        functions = {'mat_fun': (mat_fun,), 'bc_fun': (bc_fun,)}
        extra = {}
        mats = {'ms': ({'rho': 0.7, '.lumping': 'row_sum', '.beta': 0.4},),
                'm': 'mat_fun', 'k': ({'c': 0.35, 'r': 0.2},)}
        if kind == 'heat':
            variables['w'] = ('unknown field', 't', 1, 1)
            variables['z'] = ('test field', 't', 'w')
            equations = {'TT': 'dw_dot.i.Omega(s, dT/dt)'
                         ' + dw_laplace.i.Omega(m.D, s, T)'
                         ' - dw_dot.i.Omega(k.c, s, T[-1])'
                         ' + dw_dot.i.Omega(k.c, s, q)'
                         ' + dw_dot.i.Omega(k.r, s, w)'
                         ' + dw_dot.i.Bottom(k.r, s, T)'
                         ' + dw_dot.i3.Bottom(k.r, s, w)'
                         ' + dw_volume_nvf.i.Omega(nfun, ndfun, s, T) = 0',
                         'ww': 'de_laplace.i.Omega(k.r, z, w)'
                         ' + de_dot.i.Omega(k.c, z, T)'
                         ' + de_dot.i3.Omega(m.D, z, T)'
                         ' + de_dot.i.Bottom(k.c, z, T)'
                         ' + de_surface_flux.i.Bottom(m.K, z, T) = 0'}
            if p.get('eprev'):
                equations['ww'] = equations['ww'].replace(
                    ' = 0', ' + de_dot.i.Omega(k.r, z, w[-1]) = 0')
            extra['nfun'], extra['ndfun'] = nfun, ndfun
            ebcs = {'left': ('Left', {'T.0': 'bc_fun'}),
                    'right': ('Right', {'T.0': 0.25, 'w.0': 0.1})}
        else:
            from sfepy.mechanics.matcoefs import stiffness_from_youngpoisson
            mats['el'] = ({'D': stiffness_from_youngpoisson(dim, 10.0, 0.3),
                           'mu': 3.0, 'kk': 20.0, 'c': 0.5},)
            equations = {'TT': 'dw_dot.i.Omega(m.D, s, dT/dt)'
                         ' + dw_tl_he_neohook.i.Omega(el.mu, s, T)'
                         ' + dw_tl_bulk_penalty.i.Omega(el.kk, s, T)'
                         ' + de_mass.i.Omega(ms.rho, ms.lumping, ms.beta,'
                         ' s, T[-1])'
                         ' + dw_dot.i.Bottom(el.c, s, T)'
                         ' + dw_dot.i3.Bottom(el.c, s, T)'
                         ' + dw_dot.i.Omega(el.c, s, q) = 0'}
            ebcs = {'left': ('Left', {'T.all': 0.0}),
                    'right': ('Right', {'T.0': 0.05})}
        conf = {
            'filename_mesh': P.mesh_reader(shape), 'regions': regions,
            'fields': fields, 'variables': variables, 'ebcs': ebcs,
            'materials': mats, 'equations': equations,
            'functions': functions, 'integrals': {'i': 2, 'i3': 3},
            'solvers': {
                'ls': ('ls.scipy_direct', {}),
                'newton': ('nls.newton', {'i_max': 15, 'eps_a': 1e-11,
                                          'eps_r': 1e-11, 'macheps': 1e-16,
                                          'verbose': 0,
                                          'report_status': False}),
            },
            'options': {'nls': 'newton', 'ls': 'ls',
                        'active_only': p.get('active_only', True)},
            **extra,
        }
        if p.get('eterm'):
            conf['options']['eterm'] = {'verbosity': 0,
                                        'backend_args': dict(p['eterm'])}
        self.eterm = {'eterm_options': conf['options'].get('eterm')}
        self.pb = P.make_problem(conf, 'a')
        self.coors0 = self.pb.domain.mesh.coors.copy()
        from sfepy.solvers.ts import VariableTimeStepper
        model = model if model is not None else {
            'step': 0, 'times': [0.0], 'dt': 0.1, 'mat_a': 1.0, 'coors': None,
            'bcs': None, 'q_step': 0, 'v_step': 0}
        self.ts = VariableTimeStepper(0.0, 100.0, dt=model['dt'], n_step=None)
        self.ts.set_state(step=model['step'], dt=model['dt'],
                          times=list(model['times']))
        self.mat_a = model['mat_a']
        pb = self.pb
        if model['coors'] is not None:
            self.set_coors(model['coors'])
        pb.init_time(self.ts) if hasattr(pb, 'init_time') else None
        if model['bcs'] is not None:
            pb.select_bcs(ebc_names=model['bcs'])
        pb.time_update(self.ts)
        self.state_names = [vv.name for vv in
                            pb.get_variables().iter_state()]
        self.q.init_history()
        pb.equations.variables.init_history()
        pb.equations.variables.init_state()

    def tick(self, name):
        self.calls += 1
        if (self.fail_at is not None):
            self.fail_at -= 1
            if self.fail_at == 0:
                self.fail_at = None
                raise SimFault(name)

    @property
    def q(self):
        return self.pb.get_variables()['q']

    def set_coors(self, amp_seed):
        amp, seed = amp_seed
        xx = self.coors0
        rs = nm.random.RandomState(seed)
        cc = xx + amp * nm.sin(nm.pi * xx[:, :1]) * nm.sin(
            nm.pi * xx[:, 1:2]) * rs.uniform(-1, 1, xx.shape[1])[None, :]
        cc = cc * (1.0 + 0.2 * amp * rs.uniform(0, 1))
        self.pb.set_mesh_coors(cc, update_fields=True)

    @classmethod
    def fresh(cls, p, model):
        """The shortest way to the present state of the model."""
        world = cls(p, model)
        pb = world.pb
        variables = pb.get_variables()
        hist = p['history']

        class Stub(object):
            pass
        # History of states.
        if model['v_step'] > 0:
            depth = max(hist, 1)
            for ii in range(depth, 0, -1):
                parts = {}
                for name in world.state_names:
                    dd = model['vars'][name]
                    parts[name] = dd[min(ii, len(dd) - 1)]
                variables.set_state_parts(parts)
                variables.advance(world.ts)
        variables.set_state_parts({name: model['vars'][name][0]
                                   for name in world.state_names})
        for var in variables.iter_state():
            var.step = model['v_step']
        # The parameter.
        for ii, dd in enumerate(model['vars']['q']):
            if dd is not None:
                world.q.set_data(dd.copy(), step=-ii)
        world.q.step = model['q_step']
        pb.update_materials(world.ts, mode='force', verbose=False)
        return world

    def evaluate(self, name, mode, how):
        pb = self.pb
        exprs = EXPRS if self.p['kind'] == 'heat' else ELEXPRS
        expr, _ = exprs[name]
        kw = {'verbose': False, 'ts': self.ts}
        if self.p.get('eterm'):
            kw.update(self.eterm)
        if mode == 'matrix':
            mtx = pb.evaluate(expr, mode='weak', dw_mode='matrix',
                              copy_materials=False, active_only=self.p.get(
                                  'active_only', True), **kw)
            out = mtx.toarray()
        elif mode == 'weak':
            out = pb.evaluate(expr, mode='weak', copy_materials=False,
                              active_only=self.p.get('active_only', True),
                              **kw)
        else:
            out = pb.evaluate(expr, mode=mode, copy_materials=False,
                              preserve_caches=(how == 'preserve'), **kw)
        return nm.array(out, copy=True)

    def var_evaluate(self, op):
        pb = self.pb
        var = pb.get_variables()[op['var']]
        regions = pb.domain.regions
        integral = pb.get_integrals()[op['integral']]
        region = regions[op['region']]
        kw = {}
        if op.get('deriv'):
            kw['time_derivative'] = 'dt'
            if op.get('dt'):
                kw['dt'] = op['dt']
        mode = op['mode']
        if region.kind == 'facet' and mode != 'val':
            mode = 'val'
        out = var.evaluate(mode=mode, region=region, integral=integral,
                           integration='facet' if region.kind == 'facet'
                           else 'cell', step=op['step'], **kw)
        return nm.array(out, copy=True)

    def residual(self, matrix):
        pb = self.pb
        pb.init_solvers()
        nls = pb.get_nls()
        ev = pb.get_evaluator()
        variables = pb.get_variables()
        vec = variables.get_state(pb.active_only)
        if matrix:
            return ev.eval_tangent_matrix(vec.copy()).toarray()
        return nm.array(ev.eval_residual(vec.copy()))

    def solve_nls(self):
        pb = self.pb
        pb.init_solvers()
        nls = pb.get_nls()
        nls.fun, nls.fun_grad, nls.iter_hook = pb.get_nls_functions()
        variables = pb.get_variables()
        variables.apply_ebc()
        vec0 = variables.get_state(pb.active_only).copy()
        vec = nls(vec0)
        variables.set_state(vec, pb.active_only, apply_ebc=True)
        return nm.array(variables(), copy=True)


class PROP(core.Property):
    id = 'C16'
    rule = ('one evaluation is one history of operations on a problem;'
            ' non-trivial if an evaluation was compared after at least one'
            ' change following an earlier evaluation; distinct by event'
            ' trace')
    real = ['Problem', 'Equations', 'Terms', 'Variables with evaluate'
            ' caches', 'Materials', 'fields and mappings', 'Newton solver']
    stub = ['the time stepping loop (the history is the simulator\'s)']
    assumptions = ['material data are updated (Problem.update_materials) after'
                   ' a change of time, material function or coordinates']
    n_quick = 500
    n_thorough = 15000
    quick_budget = 200.0

    def setup(self):
        P.quiet()
        import sfepy.discrete.problem  # noqa: F401

    def gen(self, rng, tier, index):
        kind = rng.choice(['heat', 'heat', 'elastic'])
        p = {'kind': kind, 'shape': rng.choice([[3, 3], [4, 3]]),
             'order': rng.choice([1, 1, 2]) if kind == 'heat' else 1,
             'history': rng.choice([1, 1, 2]),
             'active_only': rng.random() < 0.7,
             'eprev': rng.random() < 0.5}
        if rng.random() < 0.4:
            layout = list('cqgvd0')
            if rng.random() < 0.7:
                rng.shuffle(layout)
            p['eterm'] = {'backend': rng.choice(['numpy', 'opt_einsum']),
                          'layout': ''.join(layout)}
        exprs = EXPRS if kind == 'heat' else ELEXPRS
        states = ['T', 'w'] if kind == 'heat' else ['T']
        # A few favourite evaluations, so that caches are really hit.
        favs = []
        for _ in range(rng.choice([1, 2, 3])):
            name = rng.choice(sorted(exprs))
            favs.append((name, rng.choice(exprs[name][1])))
        vfavs = []
        for _ in range(rng.choice([1, 2])):
            vfavs.append({
                'var': rng.choice(states + ['q']),
                'mode': rng.choice(['val', 'grad', 'val']),
                'region': rng.choice(['Omega', 'Omega', 'Bottom']),
                'integral': rng.choice(['i', 'i3']),
                'step': -rng.randrange(0, p['history'] + 1),
                'deriv': rng.random() < 0.4,
                'dt': rng.choice([None, None, 0.05])})
        ops = []
        kinds = []
        for _ in range(rng.randrange(4, 28)):
            kinds.append((None, None))
        if rng.random() < 0.6:
            # An evaluation, a single change and the same evaluation again.
            kinds = kinds[:rng.randrange(0, 10)]
            if rng.random() < 0.6:
                kinds[:0] = [(kk, None) for kk in rng.choice(
                    [['advance', 'qadvance'], ['qadvance'], ['advance'],
                     ['advance', 'qadvance', 'advance', 'qadvance']])]
            for _ in range(rng.randrange(2, 7)):
                ev = rng.choice(['eval', 'vareval', 'vareval'])
                ifav = rng.randrange(6)
                kinds += [(ev, ifav), (rng.choice(
                    ['state', 'part', 'advance', 'dt', 'mat', 'coors',
                     'ebc', 'ic', 'reduced', 'stateebc', 'bcs', 'qdata', 'qprev', 'qprev', 'qconst', 'qfun', 'qvert',
                     'qqp', 'qadvance', 'fail', 'init', 'fill', 'res',
                     'solve']), None), (ev, ifav)]
        for kk0, ifav in kinds:
            sd = rng.randrange(10**6)
            kk = kk0 or rng.choice(['eval'] * 4 + ['vareval'] * 5 + ['res'] * 2
                            + ['state', 'state', 'part', 'advance',
                               'advance', 'dt', 'mat', 'bcs', 'coors', 'coors',
                               'qdata', 'qdata', 'qprev', 'qconst', 'qfun',
                               'qvert', 'qqp', 'qadvance', 'fail', 'fail',
                               'solve', 'init', 'fill', 'ebc', 'ic',
                               'reduced', 'stateebc'])
            op = {'op': kk, 'seed': sd}
            if kk == 'eval':
                if ifav is not None:
                    op['name'], op['mode'] = favs[ifav % len(favs)]
                elif rng.random() < 0.7:
                    op['name'], op['mode'] = rng.choice(favs)
                else:
                    op['name'] = rng.choice(sorted(exprs))
                    op['mode'] = rng.choice(exprs[op['name']][1])
                op['how'] = rng.choice(['normal', 'normal', 'preserve'])
            elif kk == 'vareval':
                op.update(rng.choice(vfavs) if ifav is None
                          else vfavs[ifav % len(vfavs)])
                if ifav is None and rng.random() < 0.35:
                    op['step'] = -rng.randrange(0, p['history'] + 1)
                    op['deriv'] = rng.random() < 0.4
                    op['dt'] = rng.choice([None, None, 0.05, 0.5])
                if op['var'] == 'w':
                    op['step'] = max(op['step'], -1)
                hh = 1 if op['var'] == 'w' else p['history']
                if op['deriv'] and (op['step'] == -hh):
                    op['step'] += 1
            elif kk == 'res':
                op['matrix'] = rng.random() < 0.4
            elif kk == 'part':
                op['var'] = rng.choice(states)
            elif kk == 'dt':
                op['dt'] = rng.choice([0.02, 0.1, 0.3])
            elif kk == 'advance':
                op['dt'] = rng.choice([None, None, 0.02, 0.3])
            elif kk == 'mat':
                op['a'] = rng.choice([0.5, 1.0, 2.0, 3.0])
                op['mode'] = rng.choice(['force', 'force', 'normal'])
            elif kk == 'bcs':
                op['names'] = rng.choice([None, ['left'], ['right'], []])
            elif kk == 'coors':
                op['amp'] = rng.choice([0.0, 0.1, 0.2])
            elif kk == 'fail':
                op['at'] = rng.randrange(1, 8)
                op['matrix'] = rng.random() < 0.5
                op['what'] = rng.choice(['res', 'solve', 'eval', 'mat'])
                op['name'], op['mode'] = rng.choice(favs)
            elif kk == 'fill':
                op['val'] = rng.choice([0.0, 0.1])
            elif kk == 'qprev':
                op['step'] = -rng.randrange(1, p['history'] + 1)
            ops.append(op)
        return {'p': p, 'ops': ops}

    def run(self, spec, ctx):
        p = spec['p']
        world = World(p)
        pb = world.pb
        variables = pb.get_variables()
        amp = 1.0 if p['kind'] == 'heat' else 0.02
        hist = p['history']
        names = world.state_names
        n_dof = {name: variables[name].n_dof for name in names + ['q']}
        hists = {name: hist for name in names + ['q']}
        if 'w' in hists:
            hists['w'] = 1
        model = {'step': 0, 'times': [0.0], 'dt': 0.1, 'mat_a': 1.0,
                 'coors': None, 'bcs': None, 'q_step': 0, 'v_step': 0,
                 'vars': {name: [nm.zeros(n_dof[name])]
                          + [None] * hists[name]
                          for name in names + ['q']}}
        # The parameter has always data.
        for ii in range(hist + 1):
            val = rvec(17 + ii, n_dof['q'], amp)
            model['vars']['q'][ii] = val
            world.q.set_data(val.copy(), step=-ii)
        pb.update_materials(world.ts, mode='force', verbose=False)

        def fresh():
            mm = dict(model)
            return World.fresh(p, mm)

        def compare(out, ref, what):
            ctx.check(out.shape == ref.shape, 'shape-differs:' + what,
                      lambda: '%s has shape %s, with a new problem in the same'
                      ' state %s' % (what, out.shape, ref.shape))
            scale = max(1e-6, nm.abs(ref).max()) if ref.size else 1.0
            err = nm.abs(out - ref).max() if ref.size else 0.0
            ctx.check(err <= 1e-7 * scale, 'stale:' + what.split(' ')[0],
                      lambda: '%s differs by %g (scale %g) from a new problem'
                      ' in the same state' % (what, err, scale))

        def sync():
            """Check data of variables against the model."""
            for name in names + ['q']:
                var = variables[name]
                ctx.check((var() == model['vars'][name][0]).all()
                          if model.get('exact', 1) else True,
                          'data-differs',
                          lambda: 'values of %s differ from those set' % name)
                if (model['v_step'] > 0) and (name != 'q'):
                    for ii in range(1, hists[name] + 1):
                        mv = model['vars'][name][ii]
                        if mv is None:
                            continue
                        ctx.check((var(step=-ii) == mv).all(),
                                  'history-differs',
                                  lambda: 'values of %s, step %d differ from'
                                  ' those set' % (name, -ii))

        n_eval = 0
        changed = False
        for io, op in enumerate(spec['ops']):
            kk = op['op']
            ctx.choice_made(io, kk)
            if kk == 'eval':
                out = world.evaluate(op['name'], op['mode'], op['how'])
                ref = fresh().evaluate(op['name'], op['mode'], 'normal')
                ctx.event(io, kk, op['name'], op['mode'],
                          '%.8e' % nm.linalg.norm(out))
                compare(out, ref, 'evaluate:%s mode %s, operation %d'
                        % (op['name'], op['mode'], io))
                if n_eval and changed:
                    ctx.probe('compared-after-change')
                n_eval += 1
                ctx.probe('eval:' + op['mode'])
            elif kk == 'vareval':
                need = [op['step']]
                if op['deriv']:
                    need.append(op['step'] - 1)
                if (op['var'] not in n_dof) or any(
                        (model['vars'][op['var']][-ii] is None)
                        and not (ii == -1 and model['q_step' if op['var'] == 'q'
                                                 else 'v_step'] == 0)
                        for ii in need):
                    # Not available.
                    continue
                out = world.var_evaluate(op)
                ref = fresh().var_evaluate(op)
                ctx.event(io, kk, op['var'], '%.8e' % nm.linalg.norm(out))
                compare(out, ref, 'variable-evaluate %s step %d'
                        ' derivative %s dt %s, operation %d'
                        % (op['var'], op['step'], op['deriv'], op['dt'], io))
                if n_eval and changed:
                    ctx.probe('compared-after-change')
                n_eval += 1
                ctx.probe('vareval')
            elif kk == 'res':
                fw = fresh()
                variables.apply_ebc()
                fw.pb.get_variables().apply_ebc()
                out = world.residual(op['matrix'])
                ref = fw.residual(op['matrix'])
                for name in names:
                    model['vars'][name][0] = variables[name]().copy()
                ctx.event(io, kk, '%.8e' % nm.linalg.norm(out))
                compare(out, ref, '%s of the equations, operation %d'
                        % ('matrix' if op['matrix'] else 'residual', io))
                if n_eval and changed:
                    ctx.probe('compared-after-change')
                n_eval += 1
            elif kk == 'solve':
                fw = fresh()
                out = world.solve_nls()
                ref = fw.solve_nls()
                for name in names:
                    model['vars'][name][0] = variables[name]().copy()
                ctx.event(io, kk, '%.6e' % nm.linalg.norm(out))
                compare(nm.round(out, 9), nm.round(ref, 9),
                        'solution of the equations, operation %d' % io)
                n_eval += 1
                ctx.probe('solve')
            elif kk == 'fail':
                world.fail_at = op['at']
                try:
                    if op['what'] == 'res':
                        variables.apply_ebc()
                        for name in names:
                            model['vars'][name][0] = variables[name]().copy()
                        world.residual(op['matrix'])
                    elif op['what'] == 'solve':
                        world.solve_nls()
                    elif op['what'] == 'mat':
                        pb.update_materials(world.ts, mode='force',
                                            verbose=False)
                    else:
                        world.evaluate(op['name'], op['mode'], 'normal')
                except SimFault:
                    ctx.fault('user-function-failure')
                    if op['what'] == 'mat':
                        # Repeat the failed update.
                        pb.update_materials(world.ts, mode='force',
                                            verbose=False)
                world.fail_at = None
                for name in names:
                    model['vars'][name][0] = variables[name]().copy()
                changed = True
            else:
                changed = True
                self.change(op, world, model, amp, names, n_dof, hists)
                ctx.event(io, kk)
                ctx.probe('change:' + kk)
            sync()

    def change(self, op, world, model, amp, names, n_dof, hists):
        pb = world.pb
        variables = pb.get_variables()
        kk, sd = op['op'], op['seed']
        mv = model['vars']
        if kk == 'state':
            parts = {}
            for ii, name in enumerate(names):
                parts[name] = rvec(sd + ii, n_dof[name], amp)
            vec = nm.concatenate([parts[name] for name in names])
            # Ordered states.
            variables.set_state(vec, reduced=False)
            for name in names:
                mv[name][0] = parts[name]
        elif kk == 'part':
            val = rvec(sd, n_dof[op['var']], amp)
            variables.set_state_parts({op['var']: val})
            mv[op['var']][0] = val
        elif kk in ('ebc', 'ic', 'reduced', 'stateebc'):
            if kk == 'ebc':
                variables.apply_ebc()
            elif kk == 'ic':
                variables.apply_ic()
            elif kk == 'reduced':
                ao = world.p.get('active_only', True)
                num = len(variables.get_state(ao))
                vec = rvec(sd, num, amp)
                variables.set_state(vec.copy(), reduced=ao)
            else:
                vec = rvec(sd, sum(n_dof[name] for name in names), amp)
                variables.set_state(vec.copy(), reduced=False, apply_ebc=True)
            for name in names:
                mv[name][0] = nm.array(variables[name](), copy=True)
        elif kk == 'init':
            vec = rvec(sd, sum(n_dof[name] for name in names), amp)
            variables.init_state(vec)
            off = 0
            for name in names:
                mv[name] = ([vec[off:off+n_dof[name]].copy()]
                            + [None] * hists[name])
                off += n_dof[name]
            model['v_step'] = 0
        elif kk == 'fill':
            variables.fill_state(op['val'])
            for name in names:
                mv[name][0] = nm.full(n_dof[name], op['val'])
        elif kk == 'advance':
            ts = world.ts
            variables.advance(ts)
            model['v_step'] = ts.step + 1
            if op['dt'] is not None:
                ts.set_time_step(op['dt'])
            ts.advance()
            pb.time_update(ts)
            pb.update_materials(ts, verbose=False)
            model['step'], model['dt'] = ts.step, ts.dt
            model['times'] = list(ts.times)
            for name in names:
                dd = mv[name]
                for ii in range(1, len(dd)):
                    if dd[ii] is None:
                        dd[ii] = dd[ii-1]
                for ii in range(len(dd) - 1, 0, -1):
                    dd[ii] = dd[ii-1].copy()
        elif kk == 'dt':
            ts = world.ts
            ts.set_time_step(op['dt'], update_time=ts.step > 0)
            pb.time_update(ts)
            pb.update_materials(ts, verbose=False)
            model['dt'], model['times'] = ts.dt, list(ts.times)
        elif kk == 'mat':
            world.mat_a = model['mat_a'] = op['a']
            pb.update_materials(world.ts, mode=op['mode'], verbose=False)
        elif kk == 'bcs':
            if op['names'] is None:
                pb.set_bcs()
                pb.time_update(world.ts)
                model['bcs'] = None
            else:
                pb.select_bcs(ebc_names=op['names'])
                pb.time_update(world.ts)
                model['bcs'] = op['names']
        elif kk == 'coors':
            world.set_coors([op['amp'], sd])
            model['coors'] = [op['amp'], sd]
            pb.time_update(world.ts)
            pb.update_materials(world.ts, mode='force', verbose=False)
        elif kk == 'qdata':
            val = rvec(sd, n_dof['q'], amp)
            world.q.set_data(val.copy())
            mv['q'][0] = val
        elif kk == 'qprev':
            val = rvec(sd, n_dof['q'], amp)
            world.q.set_data(val.copy(), step=op['step'])
            mv['q'][-op['step']] = val
        elif kk == 'qconst':
            world.q.set_constant(amp * (1 + sd % 7))
            mv['q'][0] = nm.full(n_dof['q'], amp * (1.0 + sd % 7))
        elif kk == 'qfun':
            nc = world.nc

            def fun(coors):
                return amp * nm.repeat(nm.sin(
                    sd + coors[:, :1] * 2 + coors[:, 1:2]), nc, axis=1)
            world.q.set_from_function(fun)
            mv['q'][0] = fun(world.q.field.get_coor()).ravel()
        elif kk == 'qvert':
            nv = pb.domain.mesh.n_nod
            val = rvec(sd, nv * world.nc, amp).reshape((nv, world.nc))
            world.q.set_from_mesh_vertices(val)
            # The semantics of interpolation is not the subject.
            mv['q'][0] = world.q().copy()
        elif kk == 'qqp':
            integral = pb.get_integrals()['i']
            sh = world.q.field.get_data_shape(integral, 'cell', 'Omega')
            val = rvec(sd, sh[0] * sh[1] * world.nc, amp)
            val = val.reshape((sh[0], sh[1], world.nc, 1))
            world.q.set_from_qp(val, integral)
            mv['q'][0] = world.q().copy()
        elif kk == 'qadvance':
            world.q.advance(world.ts)
            model['q_step'] = world.ts.step + 1
            dd = mv['q']
            for ii in range(len(dd) - 1, 0, -1):
                dd[ii] = dd[ii-1].copy()

    def nontrivial(self, spec, res):
        return res['probes'].get('compared-after-change', 0) > 0
