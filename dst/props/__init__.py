"""property id -> module; every module has make(pid) -> property object"""
MODULES = {f'M0{i}': 'mfam' for i in range(1, 9)}
MODULES.update(H01='hist', H02='hist', S02='hist', D01='files', D02='files', D03='files', D04='files', H04='calcs', S01='calcs', A01='calcs', V01='answers', V02='answers', V03='answers', R01='determ', C01='conf', C02='consts', H03='inputs', H05='inputs', T01='threads', F01='figures')

_M = ('simulated solver gives optimal, tied, arbitrary feasible, extreme and early answers; rules checked on every reported result, '
      'optimum compared with an independent reference model')
_MN = ('Seeded search over small random systems (2-7 steps, up to 8 components): every accepted answer obeys the rules within solver '
       'tolerance and proven optima equal an independent formulation. Trusts: numpy, scipy HiGHS (mismatches confirmed twice), the '
       'reference model. Says nothing about systems or answers not sampled.')
NOTES = {f'M0{i}': (_M, _MN) for i in range(1, 9)}

_SMALL = ' Seeded search over small random systems and histories; says nothing about what was not sampled.'
NOTES.update({
    'H01': ('random histories of modelling, solving, failing, interrupting and saving on one flow system under a simulated solver and disk; the next '
            'calculation\'s problem and results are compared with those of a freshly built system',
            'Exact comparison of the problem handed to the solver (variables, coefficients, bounds, in order) and of the results.' + _SMALL),
    'H02': ('random interleavings of modelling and solving several calculations with solver faults, interrupts and disk errors; reported and saved values '
            'are compared with the answer given in the last solve of that calculation',
            'Every answer is unique to its solve, so a stale or foreign value is recognised.' + _SMALL),
    'S02': ('segmented runs aborted by solver faults, interrupts and disk errors in every segment and phase; start values afterwards are read from the '
            'elements and through the problem of the next calculation', 'Checks the start values and the next problem exactly.' + _SMALL),
    'D01': ('calculations saved by the real code to a simulated-fault-free disk after random accepted answers; what is loaded is compared with the results '
            'in memory and with the generated specification', 'Full round trip of results, inputs, time axis and tables.' + _SMALL),
    'D02': ('process crash, interrupt, write error or torn write injected at any file operation of a save; loading afterwards must fail or give one '
            'complete run', 'Crash model is process death (data handed to the OS survives), not power loss.' + _SMALL),
    'D03': ('disk errors injected at random file operations of every writer; a writer that returns normally must have produced the same file as the '
            'undisturbed run', 'Writers: save, JSON export, plotly and matplotlib plots, network pictures.' + _SMALL),
    'D04': ('random operation sequences of several calculations with related names with solver and disk faults; the directory tree is compared before and '
            'after every operation', 'Whole working directory is hashed after every operation.' + _SMALL),
})
NOTES.update({
    'H04': ('several calculations on random ranges of the time axis in random order on one flow system under the simulated solver; each problem and result is '
            'compared with that of a system built from the sliced data only', 'Exact comparison of problems, results and time axes; ranges are contiguous.' + _SMALL),
    'S01': ('segmented runs whose segments are answered by random accepted answers; each segment problem is compared with one on the sliced system with the '
            'start values that the previous answer implies, the joined result with the owning segments',
            'Exact comparison; a rest of a single step counts to the segment before it.' + _SMALL),
    'A01': ('aggregated runs with the library\'s or a random clustering as a simulated party; ties checked on every random accepted answer and the optimum '
            'compared with an own formulation of the ties on the full problem', 'What the clustering library returns is taken as given (tsam is trusted).' + _SMALL),
})
NOTES.update({
    'V01': ('calculations of all kinds with all five solver classes on simulated back ends that refuse, crash, are interrupted, end without or early with a '
            'solution, after optional earlier saved runs; outcome, reported values, warnings and files are checked',
            'Back ends are simulated at the Pyomo interface; their own parsing of solver output is not exercised.' + _SMALL),
    'V02': ('each calculation is answered exactly and, in a second world, with seeded numerical noise; decisions must agree exactly, quantities within the '
            'noise, in memory, in the next segment\'s problem and in saved files', 'Answers with values at the on/off threshold are left out.' + _SMALL),
    'V03': ('sequences of calculations with shared solver objects of all five classes on simulated back ends that take simulated time and obey the limits they '
            'are given; settings reaching every solve, solver objects and reports are checked',
            'Back ends are simulated at the Pyomo interface.' + _SMALL),
    'R01': ('the same random script runs in several processes under different hash seeds, object hashes, memory layouts, random states and jumping clocks; '
            'ordered problems, results and files are compared', 'Plot files are not compared.' + _SMALL),
})
NOTES.update({
    'C01': ('random sequences of configuration loads and log calls over generated files (missing, malformed, partial, wrong types) with injected open/read '
            'errors and open files counted; settings and log set-up afterwards are compared with those before or those of the file',
            'Handlers, levels, destinations, settings and open files are all compared; log output is counted line by line.' + _SMALL),
    'C02': ('random sequences of configurations with other constants and of refused ones, with random systems modelled and answered by the simulated solver in '
            'between; optimum and answers are judged by an independent model with the constants in force', 'Constants apart from solver tolerances only.' + _SMALL),
    'H03': ('random histories of modelling, solving, saving, loading, exporting and plotting under solver and disk faults, with inputs shared between elements; '
            'every object passed in is frozen and compared after each operation', 'Equality is deep and type-exact; sharing is compared with an unshared world.' + _SMALL),
    'H05': ('random sequences of admissible and refused additions in random groupings under the simulated solver; registries, problem and results afterwards are '
            'compared with a system that never saw the refused ones', 'Elements accepted before the refused one inside one call may stay or not.' + _SMALL),
    'F01': ('results of random systems and accepted answers are saved, loaded and drawn in random figures with disk errors in between; contents of every plotly, '
            'matplotlib and pyvis object, the files and the browser calls are compared with the results in memory',
            'Contents of figure objects, not pixels; heat maps on grids that do not fit the time steps are only made.' + _SMALL),
    'T01': ('two to four threads of real work run under a seeded deterministic scheduler that switches at source lines, calls or file operations, with per-thread '
            'solver and disk faults; every thread is compared with its run alone',
            'Switch points are Python lines and intercepted file calls of flixOpt only; preemption inside numpy, pyomo or linopy is not explored.' + _SMALL),
})
