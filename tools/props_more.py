prop('C02', 'A usable restart file survives every crash and disk fault',
     'Once the first restart file was saved, a restart file from which the'
     ' simulation can be resumed correctly exists at every later instant, also'
     ' with the policy of keeping only the latest one, no matter when the'
     ' process is killed, when the disk gets full or when a write fails. A'
     ' restart file whose saving was reported as successful loads completely'
     ' and exactly. A failed write or an incomplete restart file is reported as an'
     ' error, never taken for a valid state.',
     ['crash_points', 'fault_sequences'],
     'any kill point, full disk or I/O error at any file system operation of'
     ' a simulation that saves restart files, both retention policies',
     'Tests never interrupt or fail a write; the retention policy is never'
     ' exercised together with a fault.',
     [D + 'problem.py'],
     mm(('saving and removal of the previous file',
         D + 'problem.py: Problem.save_restart'),
        ('loading', D + 'problem.py: Problem.load_restart')),
     [{'name': 'restart files on disk', 'meaning': 'durable state',
       'where': 'output directory'}],
     ['files in the output directory after the fault',
      'the resumed simulation'],
     note='Real simulations in child processes over an LD_PRELOAD disk'
     ' simulator: seeded kill, torn write, ENOSPC, EIO at a numbered file'
     ' system operation; then the surviving files are resumed and compared'
     ' with the uninterrupted run. Process-crash model: completed writes'
     ' survive.')

prop('C03', 'Result files hold exactly the saved time series',
     'The HDF5 results of a simulation contain every saved time step exactly'
     ' once, with its own time and field values, in order, and reading any'
     ' step, the list of times or a time history through the public readers'
     ' returns just that, also after the writing process was stopped between'
     ' two steps and the series was continued by another one. Saving a step'
     ' that is already present is refused and changes nothing. The steps saved'
     ' are the first ones that reach each requested saving time.',
     ['histories', 'crash_points', 'configurations'],
     'any interleaving of writing, reading, stopping and continuing, any'
     ' uniform or variable time steps, any requested saving times',
     'One test writes a fixed series of steps by one writer and reads it'
     ' back; continuation, refusals and readers interleaved with writers are'
     ' not covered.',
     [D + 'fem/meshio.py', D + 'problem.py'],
     mm(('appending writer', D + 'fem/meshio.py: HDF5MeshIO.write'),
        ('readers', D + 'fem/meshio.py: HDF5MeshIO.read_times, read_data,'
         ' read_time_history, read_variables_time_history,'
         ' read_time_stepper, read_last_step'),
        ('selection of saved steps', D + 'problem.py: make_is_save')),
     [], ['readers of the result file'],
     note='Seeded operation histories of writers, readers, stops and faults'
     ' against a list-of-steps reference model.')

prop('C04', 'A save that reports success wrote everything',
     'Whenever saving a mesh, results, a restart file, homogenized'
     ' coefficients or a dictionary returns without an error, reading the file'
     ' back gives the saved data, even if the disk returned short writes,'
     ' interrupted calls, I/O errors or became full on the way. Otherwise an'
     ' error is raised to the caller, and the save can be repeated once the'
     ' disk works again.',
     ['fault_sequences', 'inputs'],
     'any fault at any file system operation of any writer, any saved data',
     'Tests write to a healthy disk only.',
     [D + 'fem/meshio.py', B + 'ioutils.py', H + 'coefficients.py',
      D + 'problem.py'],
     mm(('writers of the mesh formats',
         D + 'fem/meshio.py: write methods of MeshIO subclasses'),
        ('generic HDF5 storage', B + 'ioutils.py: write_dict_hdf5,'
         ' write_to_hdf5'),
        ('coefficients', H + 'coefficients.py: Coefficients.to_file_hdf5')),
     [], ['return or exception of the save call', 'data read back'],
     note='Real writers in child processes over the LD_PRELOAD disk simulator'
     ' with seeded ENOSPC, EIO, EINTR and short writes at numbered'
     ' operations.')

prop('C05', 'Reading a damaged file ends with an error or exact data',
     'Reading a mesh, results or text data file that was cut off at any byte'
     ' by a crash of its writer terminates in bounded time, either with an'
     ' error or with data that are consistent with what was written. It'
     ' neither hangs, kills the process nor returns values that were never in'
     ' the file (for formats parsed by sfepy itself). Short and interrupted'
     ' reads do not change the data read from an intact file.',
     ['crash_points', 'inputs', 'fault_sequences'],
     'any file of any supported format cut at any byte',
     'Tests only read intact files.',
     [D + 'fem/meshio.py', B + 'ioutils.py'],
     mm(('readers of the mesh formats',
         D + 'fem/meshio.py: read methods of MeshIO subclasses'),
        ('token readers', B + 'ioutils.py: skip_read_line, read_token,'
         ' read_array, read_list')),
     [], ['mesh or exception returned by the reader', 'time taken'],
     note='Seeded torn writes: files of every writable format and hand-made'
     ' samples of the read-only ones are cut at seeded bytes and read under a'
     ' step budget.')

prop('C06', 'Parallel homogenization gives the sequential results',
     'Computing homogenized coefficients with the multi-process engine gives'
     ' the same coefficients and correctors as the sequential engine for any'
     ' number of workers, any chunking of micro-problems and any order in'
     ' which workers take and finish tasks. Every required quantity is'
     ' computed exactly once, after all the quantities it depends on.',
     ['schedules', 'configurations'],
     'any interleaving of workers over the shared task list and lock, any'
     ' dependency graph, worker count and chunk size',
     'Tests run one small problem on a real pool, one uncontrolled schedule'
     ' each time.',
     [H + 'engine.py', H + 'multiproc.py', H + 'homogen_app.py'],
     mm(('worker loop', H + 'engine.py: HomogenizationWorkerMulti'),
        ('task completion and dependency release',
         H + 'engine.py: process_reqs_coefs, dechunk_reqs_coefs'),
        ('shared data structures', H + 'multiproc.py')),
     [{'name': 'task queues', 'meaning': 'remaining and completed'
       ' requirements', 'where': H + 'engine.py'}],
     ['returned coefficients and dependencies', 'calls of the user functions'],
     note='The pool and the manager are replaced by a deterministic'
     ' scheduler that interleaves the real worker code at every access to'
     ' shared data; the sequential worker is the reference.')

prop('C07', 'A failing homogenization worker is an error, never a result',
     'If the computation of any quantity raises an error in any worker of the'
     ' multi-process homogenization engine, the call fails with an error'
     ' within a bounded number of steps. It never hangs and never returns'
     ' partial, missing or stale results, and a later computation in the same'
     ' session works normally.',
     ['schedules', 'fault_sequences'],
     'any failing quantity and any schedule of the workers',
     'No test makes a worker fail.',
     [H + 'engine.py', H + 'multiproc.py'],
     mm(('worker loop', H + 'engine.py: HomogenizationWorkerMulti'),
        ('collection of worker results', H + 'engine.py:'
         ' HomogenizationWorkerMulti.__call__')),
     [], ['return or exception of the engine call', 'a following call'],
     note='As C06 with injected exceptions and worker deaths at seeded'
     ' tasks.')

prop('C08', 'Distributed DOF numbering is a consistent partition',
     'For any distribution of cells to tasks (each with some cells), every global DOF is owned by'
     ' exactly one task, the renumbered global DOFs of all tasks form'
     ' consecutive ranges covering everything, and every task maps the same'
     ' physical DOF to the same global number. The set-up exchange of the'
     ' tasks finishes without deadlock for any message timing, and tells all'
     ' tasks consistent data.',
     ['schedules', 'inputs', 'configurations'],
     'any cell partition (including empty overlaps), number of tasks, fields'
     ' and number of components, any delivery timing of messages',
     'The parallel tests need several real MPI processes and are skipped in a'
     ' normal run; partitions are always those of the partitioner.',
     ['sfepy/parallel/parallel.py'],
     mm(('task DOF maps', 'sfepy/parallel/parallel.py: create_task_dof_maps,'
         ' verify_task_dof_maps'),
        ('distribution to tasks', 'sfepy/parallel/parallel.py:'
         ' distribute_field_dofs, distribute_fields_dofs'),
        ('composite numbering', 'sfepy/parallel/parallel.py:'
         ' get_composite_sizes, get_local_ordering, get_sizes')),
     [], ['maps and communicated data of every task'],
     note='All ranks run as simulated tasks over a simulated communicator;'
     ' seeded partitions and delivery order.')

prop('C09', 'Parallel assembling equals sequential assembling',
     'The matrix and right-hand side assembled from the contributions of all'
     ' tasks of a distributed problem are the sequentially assembled ones up to'
     ' the DOF renumbering, for any partition of the domain, any number of'
     ' tasks and fields, any order in which the contributions arrive and any'
     ' sequence of evaluations. Vectors are scattered to the tasks and gathered'
     ' from them without changing the values.',
     ['schedules', 'inputs', 'configurations'],
     'any cell partition and task count, any order of assembly and exchange',
     'Covered only by examples that need MPI and PETSc and compare nothing.',
     ['sfepy/parallel/parallel.py', 'sfepy/parallel/evaluate.py'],
     mm(('assembling of task contributions', 'sfepy/parallel/parallel.py:'
         ' assemble_rhs_to_petsc, assemble_mtx_to_petsc'),
        ('local evaluation', 'sfepy/parallel/evaluate.py: PETScParallelEvaluator'),
        ('index sets', 'sfepy/parallel/parallel.py: create_petsc_system')),
     [], ['global matrix and vector'],
     note='Simulated ranks with a stub of the PETSc matrix, vector and index'
     ' set classes; the reference is the sequential assembling.')

prop('C10', 'The text log records exactly what was logged',
     'At any moment, and after a crash of the process at any point, the text'
     ' log file contains all the items logged before, in order, with the'
     ' logged values, and can be read back into the same series; only the item'
     ' being written at a crash may be incomplete. Turning messages off does'
     ' not turn the log off, a refused logging call logs nothing, and a disk'
     ' error is reported to the caller.',
     ['crash_points', 'histories'],
     'any sequence of logging calls, labels and groups, any crash point',
     'Tests never read a log during or after an interrupted run.',
     [B + 'log.py'],
     mm(('record writing', B + 'log.py: Log.__call__'),
        ('reading', B + 'log.py: read_log, write_log')),
     [], ['contents of the log file', 'read_log'],
     note='Seeded logging histories with kills at numbered file operations of'
     ' the disk simulator; reference model is the list of logged items.')

prop('C11', 'Live plotting never loses, reorders or blocks logged data',
     'Every item logged while the live plot is on reaches the plotting process'
     ' once and in order, and waiting for a plot or figure to be saved returns'
     ' only after it was processed. For any scheduling and delay of the two'
     ' processes the logging process never deadlocks, also if the plotting'
     ' process is slow or ends.',
     ['schedules', 'fault_sequences'],
     'any interleaving and delays of the logging and the plotting process, any'
     ' sequence of logging calls, plot process death',
     'Live plotting is off in the tests as it needs a display and a second'
     ' process.',
     [B + 'log.py', B + 'log_plotter.py'],
     mm(('logging side', B + 'log.py: Log.plot_data, Log.__call__,'
         ' Log.terminate'),
        ('plotting side', B + 'log_plotter.py: LogPlotter')),
     [], ['commands received by the plotting process', 'logging calls'],
     note='Logger and plotter run as two simulated processes over a simulated'
     ' pipe with bounded capacity and delays, with a stub of the plotting'
     ' library.')

prop('C13', 'Elastodynamics step control: the result depends on accepted steps',
     'In elastodynamics with any time step control, including rejected and'
     ' repeated attempts and any changes of the step size, the states of the'
     ' accepted steps are those of a simulation without cached matrices and'
     ' factorizations taking only the accepted steps. Times strictly increase,'
     ' the simulation ends when the final time is reached and returns the'
     ' state of its last step.',
     ['fault_sequences', 'histories', 'configurations'],
     'any sequence of accepted and rejected attempts and step sizes, any'
     ' elastodynamics solver, linear problems with cached matrices or not',
     'Tests compare a few solvers with fixed settings; rejections cannot be'
     ' provoked at chosen steps.',
     [S + 'ts_solvers.py', S + 'ts_controllers.py'],
     mm(('time step loop', S + 'ts_solvers.py: ElastodynamicsBaseTS.__call__'),
        ('cached matrices', S + 'ts_solvers.py: get_matrices,'
         ' clear_lin_solver, _cache'),
        ('controllers', S + 'ts_controllers.py')),
     [{'name': 'constant_matrices, matrix', 'meaning': 'cached system'
       ' matrices', 'where': S + 'ts_solvers.py: ElastodynamicsBaseTS'}],
     ['step_hook of Problem.solve', 'final state'],
     note='Seeded accept/reject and step size decisions injected behind the'
     ' controller seam; the reference takes the accepted steps with nothing'
     ' cached.')

prop('C14', 'A reused linear solver solves the system it is given',
     'A linear solver object used for any sequence of systems returns a'
     ' solution of the system given in each call, whatever was solved,'
     ' pre-factorized, cleared or failed before, as long as automatic'
     ' detection of a changed matrix is on or the solver is cleared upon'
     ' matrix changes. A failed solve does not affect later ones.',
     ['histories', 'fault_sequences'],
     'any sequence of solves with repeated, changed (also in place) and'
     ' singular matrices, clears and failures',
     'Tests solve one or two systems by each solver.',
     [S + 'ls.py', S + 'solvers.py'],
     mm(('factorization reuse', S + 'ls.py: _is_new_matrix, presolve, clear'),
        ('solver calls', S + 'ls.py: standard_call')),
     [{'name': 'mtx_digest, solve', 'meaning': 'identity and factorization of'
       ' the last matrix', 'where': S + 'ls.py'}],
     ['solutions'],
     note='Seeded operation histories with failing calls against dense'
     ' solutions.')

prop('C15', 'Nonlinear solvers report convergence honestly',
     'When a nonlinear solver reports convergence, the residual at the vector'
     ' it returns satisfies the requested tolerances; when it does not'
     ' converge, the reported condition says so, whatever failures of the'
     ' residual evaluation and of the linear solver happened on the way. It'
     ' terminates within its iteration limit, reports the iteration count and'
     ' errors that belong to the returned vector, and leaves the initial guess'
     ' intact. Optimization solvers likewise report the objective, gradient'
     ' and the reason for stopping that belong to the returned vector.',
     ['fault_sequences', 'configurations'],
     'any sequence of failing residual evaluations, inexact or failed linear'
     ' solutions, any tolerances and line search settings',
     'Tests call the solvers on a few well-behaved systems.',
     [S + 'nls.py', S + 'oseen.py', S + 'semismooth_newton.py',
      S + 'optimize.py'],
     mm(('Newton iteration and line search', S + 'nls.py: Newton.__call__,'
         ' apply_line_search_bt, conv_test')),
     [], ['returned vector and status'],
     note='Seeded fault sequences behind the residual, matrix and linear'
     ' solver callbacks; residuals are recomputed by the oracle.')

prop('C16', 'Evaluation does not depend on what was evaluated before',
     'Evaluating or solving with a problem in any state of its life gives the'
     ' same result as a newly created problem with the same state, history,'
     ' parameters, time and conditions. This holds after any sequence of'
     ' evaluations, assignments of variables, changes of materials, conditions'
     ' and time, solver calls and failed operations.',
     ['histories', 'fault_sequences'],
     'any history of public operations on one problem, with failures of user'
     ' functions in between',
     'Tests evaluate fresh problems; caches and stale data are not probed by'
     ' sequences.',
     [D + 'variables.py', D + 'evaluate.py', D + 'materials.py',
      D + 'equations.py', D + 'problem.py', 'sfepy/terms/terms.py'],
     mm(('evaluate caches and their invalidation', D + 'variables.py:'
         ' FieldVariable.evaluate, invalidate_evaluate_cache, advance'),
        ('material data cache', D + 'materials.py: Material.update_data')),
     [{'name': 'evaluate_cache', 'meaning': 'cached values of variables in'
       ' quadrature points', 'where': D + 'variables.py'}],
     ['values of evaluated expressions, residuals, matrices, solutions'],
     note='Seeded operation histories on one long-lived problem; every'
     ' observation is repeated on a freshly built problem in the same logical'
     ' state.')

prop('C17', 'A failed user function does not corrupt later time steps',
     'If a user-supplied function for materials, boundary conditions or loads'
     ' fails during an update, the error is reported to the caller, and'
     ' repeating the operation after the failure passed gives the same results'
     ' as if it had never happened. No update is silently skipped or done'
     ' with missing data.',
     ['fault_sequences', 'histories'],
     'any transient failure of any user function call in any operation',
     'Tests never make a user function fail.',
     [D + 'materials.py', D + 'equations.py', D + 'problem.py',
      D + 'conditions.py', D + 'fem/lcbc_operators.py'],
     mm(('material update', D + 'materials.py: Material.iter_terms,'
         ' update_data, time_update'),
        ('conditions update', D + 'equations.py: Equations.time_update'),
        ('problem update', D + 'problem.py: Problem.time_update,'
         ' update_equations')),
     [], ['exceptions', 'residuals, matrices and solutions after a retry'],
     note='Seeded transient failures of user function calls, retried; compared'
     ' with the failure-free run.')

prop('C18', 'Two-scale computations keep the micro-states apart',
     'In a two-scale computation each macroscopic point gets the coefficients,'
     ' correctors and stored states of its own micro-state and history, and'
     ' each macroscopic problem those of its own micro-problem and arguments,'
     ' independently of the number, order and chunking of the micro-problems'
     ' and of other macroscopic problems of the process. The results equal'
     ' those computed one by one, also when they come from the cache or saved'
     ' files (a file torn by a crash gives an error or is recomputed), and a'
     ' recovery uses the region, values and correctors it was asked for.',
     ['histories', 'schedules', 'configurations', 'crash_points'],
     'any set of points, deformation histories and macroscopic problems, any'
     ' order of evaluations, recoveries, restarts and crashes, chunking and'
     ' worker schedules',
     'One example is run, with no independent comparison.',
     [H + 'micmac.py', H + 'engine.py', H + 'homogen_app.py'],
     mm(('micro-state updates', H + 'homogen_app.py, engine.py:'
         ' update_micro_states'),
        ('macro-micro interface', H + 'micmac.py:'
         ' get_homog_coefs_nonlinear')),
     [], ['homogenized coefficients at macroscopic points'],
     note='Seeded sequences of two-scale evaluations compared with separately'
     ' computed micro-problems.')

prop('C19', 'Results do not depend on the process environment',
     'The same problem run in different processes gives the same results, time'
     ' histories, layouts of vectors and files, whatever the seed of string'
     ' hashing, the order of directory listings, the memory addresses and the'
     ' current time are. Solving a problem by blocks leaves its equations'
     ' usable as before.',
     ['schedules', 'configurations'],
     'any hash seed, start time and process',
     'The tests run in one process environment at a time and do not compare'
     ' processes.',
     [D + 'variables.py', D + 'equations.py', 'sfepy/terms/terms.py',
      D + 'conditions.py', B + 'conf.py', H + 'engine.py',
      B + 'resolve_deps.py', D + 'fem/meshio.py'],
     mm(('ordering of variables', D + 'variables.py: Variables.setup_ordering'),
        ('ordering of requirements', B + 'resolve_deps.py')),
     [], ['values of variables', 'saved files'],
     note='The same seeded workloads in new processes under different hash'
     ' seeds, directory listings, memory layouts and clocks; all observations'
     ' are compared.')

prop('C20', 'Concurrent start-ups never see a broken configuration',
     'Any number of processes starting and running at the same time in the'
     ' same home, working or output directory, on any schedule, all start'
     ' correctly and create the needed directories, each behaving as if it were'
     ' alone. Files created for common use (the site configuration, generated'
     ' meshes) are never used incomplete, even if the process creating them is'
     ' killed.',
     ['schedules', 'crash_points'],
     'any interleaving of the file system operations of starting processes,'
     ' any process killed during its start',
     'Tests start one process.',
     ['sfepy/config.py', B + 'base.py', B + 'ioutils.py', D + 'problem.py',
      'sfepy/applications/pde_solver_app.py',
      'sfepy/mesh/mesh_generators.py'],
     mm(('site configuration', 'sfepy/config.py: Config'),
        ('directory creation', B + 'ioutils.py: ensure_path')),
     [], ['results of start-up'],
     note='Seeded interleavings of the file system operations of simulated'
     ' processes.')

prop('C21', 'Probing does not depend on previous probing',
     'Probing results along lines, rays, circles or points gives the same'
     ' values as a newly created probe on the current mesh and data, after any'
     ' sequence of probing of different variables, meshes and settings with'
     ' any cache sharing options. Functions the field represents exactly are'
     ' probed exactly in all points within the extrapolation limit.',
     ['histories', 'configurations'],
     'any sequence of probe calls, cache settings and changed data',
     'Tests probe one field by new probes.',
     [D + 'probes.py', D + 'common/global_interp.py'],
     mm(('geometry and point caches', D + 'probes.py: Probe.probe,'
         ' Probe.get_evaluate_cache')),
     [], ['probed values'],
     note='Seeded histories of probing compared with new probes.')

prop('C22', 'Mesh topology and regions survive any history and no memory',
     'Connectivities, incident and complete entities, local indices, surface'
     ' facets, orientations, volumes, centroids and normals of a mesh, its'
     ' sub-meshes and the regions selected on it are those of the mesh after'
     ' any sequence of set-ups, frees, wrong requests and memory allocations'
     ' failing in the compiled core. A wrong request or a failed allocation'
     ' raises an ordinary exception, does not crash or influence other'
     ' meshes and regions, leaves no memory behind, and repeating the'
     ' operation gives the right result.',
     ['histories', 'fault_sequences'],
     'any sequence of mesh and region operations on any valid mesh, any'
     ' failing allocation, any wrong request',
     'Tests never make an allocation fail, and set up each mesh once, in one'
     ' order.',
     [D + 'common/extmods/cmesh.pyx', D + 'common/extmods/mesh.c',
      D + 'common/extmods/common_python.c', D + 'common/region.py',
      D + 'common/domain.py'],
     mm(('topology', D + 'common/extmods/mesh.c: mesh_build,'
         ' mesh_setup_connectivity, mesh_transpose, mesh_intersect'),
        ('allocations and errors', D + 'common/extmods/common_python.c:'
         ' mem_alloc_mem, mem_free_mem, errput'),
        ('regions', D + 'common/region.py: Region, ' + D +
         'common/domain.py: Domain.create_region')),
     [], ['exceptions, results of operations, memory usage statistics'],
     note='The allocator of the compiled extensions is replaced by a simulated'
     ' one (guard pages, no reuse of freed memory, seeded failures); results'
     ' are compared with a brute force incidence model and undisturbed'
     ' twins.')

PURE = ('a pure function of its inputs: no schedule, clock, I/O, fault or'
        ' interleaving can influence it, so deterministic simulation has'
        ' nothing to control here')

prop('C30', 'Assembled residuals and matrices equal the weak form',
     'For every term and every admissible combination of arguments, the'
     ' assembled vector and matrix equal the integrals of the weak form, and'
     ' the matrix is the derivative of the residual.',
     ['inputs'], 'any mesh, field approximation, material and state',
     'Tests evaluate each term on a few sample arguments.',
     ['sfepy/terms/terms.py', 'sfepy/terms/extmods/terms.c'],
     mm(('term evaluation', 'sfepy/terms/terms.py: Term.evaluate')), na=PURE)
prop('C31', 'Mesh topology and reference mappings are correct',
     'Connectivities of all dimensions, orientations and volumes computed for'
     ' any valid mesh are those of the mesh, and mappings preserve volumes.',
     ['inputs'], 'any valid mesh', 'Tests use a few meshes.',
     [D + 'common/extmods/mesh.c', D + 'fem/mappings.py'],
     mm(('mesh connectivity', D + 'common/extmods/mesh.c')), na=PURE)
prop('C32', 'Region selections follow set semantics',
     'Regions built by any combination of selectors and set operators contain'
     ' exactly the entities of the defining expression.',
     ['inputs'], 'any selector expression on any mesh',
     'Tests sample expressions.',
     [D + 'common/region.py', D + 'parse_regions.py'],
     mm(('region algebra', D + 'common/region.py: Region')), na=PURE)
prop('C33', 'Basis functions and quadratures are exact to their order',
     'Nodal and hierarchical bases form a partition of unity where stated and'
     ' reproduce polynomials of their order, and quadratures integrate exactly'
     ' up to their order.',
     ['inputs'], 'any element, order and polynomial',
     'Tests check tabulated orders only.',
     [D + 'fem/poly_spaces.py', D + 'quadratures.py'],
     mm(('bases', D + 'fem/poly_spaces.py'),
        ('quadratures', D + 'quadratures.py')), na=PURE)
prop('C34', 'Essential, periodic and linear combination conditions hold',
     'Every solution vector satisfies all the prescribed essential, periodic'
     ' and linear combination conditions, for any compatible set of them.',
     ['inputs', 'configurations'], 'any set of conditions on any mesh',
     'Tests use a few sets of conditions.',
     [D + 'conditions.py', D + 'fem/lcbc_operators.py',
      D + 'common/dof_info.py'],
     mm(('equation mapping', D + 'common/dof_info.py: EquationMap')), na=PURE)
prop('C35', 'Problem descriptions are interpreted as documented',
     'Every valid problem description in short or long syntax is turned into'
     ' the same problem, and invalid ones are rejected with an error.',
     ['inputs'], 'any problem description', 'Tests parse given examples.',
     [B + 'conf.py', D + 'parse_equations.py'],
     mm(('configuration', B + 'conf.py: ProblemConf')), na=PURE)
prop('C36', 'Eigenvalue solvers return eigenpairs of the given matrices',
     'Every pair returned by the eigenvalue and quadratic eigenvalue solvers'
     ' satisfies the eigenvalue equation to the solver tolerance, in the'
     ' requested order and number.',
     ['inputs'], 'any matrices', 'Tests use a few matrices.',
     [S + 'eigen.py', S + 'qeigen.py'],
     mm(('solvers', S + 'eigen.py')), na=PURE)
prop('C37', 'Isogeometric bases and Bezier extraction are consistent',
     'Bezier extraction reproduces the NURBS basis and its derivatives for any'
     ' knot vectors and degrees.',
     ['inputs'], 'any knot vectors, degrees and weights',
     'Tests use a few patches.',
     [D + 'iga/iga.py', D + 'iga/extmods/nurbs.c'],
     mm(('extraction', D + 'iga/iga.py: compute_bezier_extraction')), na=PURE)
prop('C38', 'Mesh refinement and hanging nodes preserve the solution space',
     'Refined meshes are conforming or constrained so that coarse functions are'
     ' represented exactly.',
     ['inputs'], 'any refinement of any mesh', 'Tests refine a few meshes.',
     [D + 'fem/refine.py', D + 'fem/refine_hanging.py'],
     mm(('refinement', D + 'fem/refine.py')), na=PURE)
