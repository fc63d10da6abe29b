"""Writes /verif/properties.jsonl (kept as code so that the wording stays reviewable)."""
import json, pathlib, sys

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            **({'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]} if state else {}),
            'observe_at': observe or [],
            'hook_needed': hook,
        },
    })


ANY_ANSWER = ('every flow system of the supported component kinds, every regular or irregular time grid, and every answer '
              'the external solver may legally give (the optimum, a tie, an early-stopped incumbent, an answer with numerical noise, a refusal)')

prop('M01', 'Every reported solution balances every bus in every time step',
     'For every solution a calculation reports, in each time step the flows into a bus plus its reported shortfall equal the flows out of it plus its reported surplus, '
     'a bus without an excess penalty has no shortfall or surplus at all, and the reported penalty is exactly the excess energy times the penalty of each bus (0 when none). '
     'The bus rules forbid nothing else: no balanced operation is refused or charged more. '
     'The main results name exactly the buses with a shortfall or surplus.',
     ['inputs', 'schedules', 'configurations'], ANY_ANSWER,
     'The tests look at one optimum of a handful of hand-made systems; they cannot speak for other graphs, for irregular steps, nor for the non-optimal answers a solver returns at a time limit.',
     ['flixOpt/elements.py', 'flixOpt/effects.py', 'flixOpt/flow_system.py', 'flixOpt/math_modeling.py'],
     [('bus balance and excess variables', 'elements.py BusModel.do_modeling'), ('penalty shares', 'effects.py add_share_to_penalty'),
      ('bus registration of flows', 'elements.py Component.register_flows_in_bus')],
     observe=['Calculation.results()["Buses"]', 'results()["Effects"]["penalty"]'])

prop('M02', 'Every reported flow respects its size, profile and energy limits',
     'In every reported solution each flow stays within size times its relative minimum and maximum in each time step, a flow with a fixed profile follows size times the profile, '
     'and total flow-hours and load factor stay within the given limits, with the reported flow-hour total being the time-weighted sum of the rates. '
     'No operation inside these limits is refused.',
     ['inputs', 'schedules', 'configurations'], ANY_ANSWER,
     'Tests use constant hourly steps and check optimum values of a few flows; limits that are not binding in those optima, time-varying limits and irregular steps stay unseen.',
     ['flixOpt/elements.py', 'flixOpt/features.py', 'flixOpt/core.py', 'flixOpt/math_modeling.py'],
     [('flow rate bounds', 'elements.py FlowModel.absolute_flow_rate_bounds'), ('sum of flow hours', 'elements.py FlowModel.do_modeling'),
      ('load factor', 'elements.py FlowModel._create_bounds_for_load_factor'), ('time series activation', 'core.py TimeSeries.active_data')],
     observe=['results()["Components"][c][flow]["flow_rate"|"sumFlowHours"]'])

prop('M03', 'Converters and transmissions convert exactly as declared',
     'In every reported solution, in each time step, each linear converter (boiler, heat pump with or without source, power-to-heat, cooling tower, CHP, generic) satisfies all its declared conversion factors, '
     'a segmented converter operates on one declared segment with all flows at the same position of it (or, if it can be off, entirely at zero), '
     'and a transmission delivers its input less relative and, while in use, absolute losses per direction. Every operating point allowed by these declarations is available.',
     ['inputs', 'schedules', 'configurations'], ANY_ANSWER,
     'Tests check single optimum values for boiler and CHP; time-varying factors, multi-flow factors, gaps between segments and both transmission directions under arbitrary solver answers are not reached.',
     ['flixOpt/components.py', 'flixOpt/linear_converters.py', 'flixOpt/features.py'],
     [('conversion equations', 'components.py LinearConverterModel.do_modeling'), ('segments', 'features.py MultipleSegmentsModel/SegmentModel'),
      ('losses', 'components.py TransmissionModel.create_transmission_equation'), ('factor choice', 'linear_converters.py constructors')],
     observe=['results()["Components"]'])

prop('M04', 'Storage content evolves by its declared physics and stays within limits',
     'In every reported solution the charge state after each step equals the previous one less standing losses plus charged energy times charging efficiency less discharged energy over discharging efficiency, each weighted by the step length. '
     'Charge states stay within relative bounds times capacity, start at the declared initial value (or, if cyclic, end where they started), end within the declared final bounds, and the storage does not charge and discharge at once unless allowed. '
     'Every trajectory meeting these rules is available.',
     ['inputs', 'schedules', 'configurations'], ANY_ANSWER,
     'Tests contain one storage on hourly steps with one initial/final setting; cyclic, free-start, lossy, irregular-step and invested storages under arbitrary solver answers are not sampled.',
     ['flixOpt/components.py', 'flixOpt/features.py', 'flixOpt/structure.py'],
     [('charge state equation', 'components.py StorageModel.do_modeling'), ('initial/final state', 'components.py StorageModel._model_initial_and_final_charge_state'),
      ('mutual exclusion', 'features.py PreventSimultaneousUsageModel')],
     observe=['results()["Components"][storage]["charge_state"|"netto_discharge"]'])

prop('M05', 'On/off state, switching and run-length rules hold in every solution',
     'In every reported solution an element with on/off behaviour reports "on" exactly when it carries flow, and on/off, switch events, on-hours, number of starts and consecutive on/off durations (counted in hours, continuing the state before the first step) are consistent with that history and within their declared limits. '
     'A run may be cut short of its minimum only at the end of the horizon; mutually exclusive flows are never on together. '
     'Every schedule that obeys the declared limits is available.',
     ['inputs', 'schedules', 'configurations'], ANY_ANSWER,
     'Tests check a few schedules with unit steps and trivial prior state; prior histories of several steps, components with several flows, irregular steps and combinations of limits are not covered.',
     ['flixOpt/features.py', 'flixOpt/elements.py', 'flixOpt/interface.py'],
     [('on definition', 'features.py OnOffModel._add_on_constraints'), ('durations', 'features.py OnOffModel._get_duration_in_hours'),
      ('prior state', 'features.py OnOffModel._previous_on_values/get_consecutive_duration'), ('switching', 'features.py OnOffModel._add_switch_constraints')],
     observe=['results()["Components"][..]["OnOff"]'])

prop('M06', 'Investment decisions are consistent with sizes and costs',
     'In every reported solution an invested size lies within its declared bounds (or equals the fixed size), a declined optional investment has size and use exactly zero, a mandatory one is never declined, and operation is limited by the size actually chosen. '
     'Fixed, size-specific, segmented and divestment effects are charged exactly as the decision implies, and every admissible size, including not investing where optional, is available. '
     'The main results list the same sizes under the decision taken.',
     ['inputs', 'schedules', 'configurations'], ANY_ANSWER,
     'Tests check five single-boiler cases at the optimum; minimum sizes combined with minimum loads, declined fixed sizes, segments, storages and transmissions with shared sizes are not reached.',
     ['flixOpt/features.py', 'flixOpt/interface.py', 'flixOpt/elements.py', 'flixOpt/components.py'],
     [('size and decision', 'features.py InvestmentModel'), ('segmented effects', 'features.py SegmentedSharesModel'), ('bounds from size', 'elements.py FlowModel.absolute_flow_rate_bounds')],
     observe=['results()["Components"][..]["Investment"]', 'results()["Effects"][e]["invest"]'])

prop('M07', 'Effect totals are the complete, once-only sum of all contributions',
     'In every reported solution each effect equals the sum of every declared contribution exactly once (flow-hours, running hours, starts, investments, shares passed on from other effects), per time step, for operation, for investment and in total, with step length applied where the value is per hour. '
     'Declared effect limits (total, operation, investment, per hour) hold, and the reported objective is the objective effect\'s operation plus investment plus the penalty; the main results repeat these figures.',
     ['inputs', 'schedules', 'configurations'], ANY_ANSWER,
     'Tests compare totals of a few fixed systems whose step is one hour, so weights by step length, effect-to-effect shares over time and limits are confounded or absent.',
     ['flixOpt/effects.py', 'flixOpt/features.py', 'flixOpt/structure.py'],
     [('share allocation', 'features.py ShareAllocationModel/SingleShareModel'), ('effect collection', 'effects.py EffectCollectionModel')],
     observe=['results()["Effects"]', 'results()["Objective"]'])

prop('M08', 'The accepted optimum is the optimum of the system as described',
     'When the solver proves optimality, the reported objective equals the true minimum cost of the described system, whatever features it combines; when the described system has no admissible operation, the calculation raises instead of reporting a solution. '
     'This holds in whichever order components are added and however equal inputs are written (scalar, array, time-series object; effect dictionary or plain value).',
     ['inputs', 'configurations', 'schedules'], 'every combination of supported features in one system, every insertion order and equivalent input notation, every solver reply',
     'Tests pin the optimum of a few systems; feature combinations (exponentially many) and equivalent notations are untested.',
     ['flixOpt/structure.py', 'flixOpt/elements.py', 'flixOpt/features.py', 'flixOpt/effects.py', 'flixOpt/components.py', 'flixOpt/core.py'],
     [('model assembly', 'structure.py SystemModel.do_modeling'), ('translation', 'math_modeling.py PyomoModel'), ('input notations', 'core.py TimeSeries, effects.py as_effect_dict')],
     observe=['results()["Objective"]', 'exceptions of Calculation.solve'])

prop('H01', 'A calculation does not depend on what was run on the flow system before',
     'For any sequence of calculations of any type on one flow system - completed, failed in modelling, failed or interrupted in the solver, or failed while saving - the next calculation hands the solver the same problem and reports the same result as it would on a freshly built, otherwise identical flow system.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of full, segmented and aggregated calculations and horizons on one system, with a fault at any solver call, modelling step or file operation',
     'Tests run one calculation per system and never one after a failure.',
     ['flixOpt/calculation.py', 'flixOpt/core.py', 'flixOpt/structure.py', 'flixOpt/flow_system.py', 'flixOpt/aggregation.py'],
     [('clearing time series state', 'structure.py _create_time_series'), ('restoring start values', 'calculation.py SegmentedCalculation._reset_start_values'), ('fresh element models', 'structure.py SystemModel.do_modeling')],
     state=[('active indices / aggregated data', 'per-time-series view used by the running calculation', 'core.py TimeSeries'), ('previous flow rates and initial charge states', 'overwritten while segments run', 'calculation.py')],
     observe=['problem passed to Solver.solve', 'Calculation.results()'])

prop('H02', 'Results always belong to the latest solve of their own calculation',
     'After any sequence of solve attempts on calculations of one flow system, in any interleaving of modelling and solving, results and saved files of a calculation contain the outcome of the last solve of that calculation only. '
     'After a failed solve no values of an earlier solve are presented, and asking for results early changes nothing later.',
     ['histories', 'schedules', 'fault_sequences'], 'every interleaving of modelling, solving, reading results and saving of several calculations, with solver failures in between',
     'Tests model, solve and read once, in that order, one calculation at a time.',
     ['flixOpt/calculation.py', 'flixOpt/math_modeling.py', 'flixOpt/structure.py'],
     [('result reset', 'math_modeling.py MathModel.solve'), ('result cache', 'calculation.py Calculation.results'), ('per-calculation models', 'structure.py SystemModel.main_results')],
     observe=['Calculation.results()', 'saved files'])

prop('H03', 'Calculating, saving and plotting never change the user\'s inputs',
     'No sequence of modelling, solving, saving, loading, exporting or plotting operations, including ones that fail midway, changes data objects the user passed in: arrays, time-series objects, effect dictionaries, parameter lists and data frames keep their values, and two elements given the same object do not influence each other.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of public operations on a system whose inputs are shared between elements',
     'Tests never compare inputs before and after, and do not share input objects between elements.',
     ['flixOpt/effects.py', 'flixOpt/core.py', 'flixOpt/plotting.py', 'flixOpt/components.py', 'flixOpt/results.py'],
     [('copying of inputs', 'core.py TimeSeries'), ('effect dictionaries', 'effects.py effect_values_to_time_series'), ('plot data', 'plotting.py with_plotly')],
     observe=['the objects the caller still holds'])

prop('H04', 'A calculation on a sub-horizon equals one on the sliced system',
     'A calculation restricted to a contiguous range of time steps hands the solver the same problem and reports the same time axis and results as a calculation on a flow system built with only that part of the time axis and of all time-dependent data. '
     'This holds regardless of which ranges were calculated before.',
     ['histories', 'inputs'], 'every system, every contiguous range and every order of ranges',
     'Tests only use whole horizons, apart from the segmented one whose result is compared with constants.',
     ['flixOpt/flow_system.py', 'flixOpt/core.py', 'flixOpt/calculation.py'],
     [('horizon selection', 'flow_system.py get_time_data_from_indices'), ('data selection', 'core.py TimeSeries.activate_indices')],
     observe=['problem passed to Solver.solve', 'results()["Time"]'])

prop('H05', 'A rejected addition leaves the flow system unchanged',
     'Adding a component or effect that is refused (duplicate label, repeated object, second standard or objective effect, wrong type) raises and leaves everything already added intact: the system then calculates the same as if the attempt had not been made. '
     'Elements added one by one, together or through either method give the same system.',
     ['histories', 'fault_sequences'], 'every sequence of valid and refused additions',
     'Tests add each element once and only valid ones.',
     ['flixOpt/flow_system.py', 'flixOpt/effects.py', 'flixOpt/elements.py'],
     [('uniqueness check before registration', 'flow_system.py add_components/_check_if_element_is_unique'), ('effect registration', 'effects.py EffectCollection.add_effect')],
     observe=['exceptions', 'problem passed to Solver.solve'])

prop('S01', 'Segmented runs join into one gap-free, state-continuous trajectory',
     'The combined result of a segmented calculation contains every time step of the horizon exactly once with the values of the segment that owns it, on the time axis of the flow system. '
     'Each segment starts from the storage contents and flow rates the previous segment had at the end of its owned part, for any segment length, overlap and horizon, including a shortened last segment. '
     'The start values listed for the segments and the list of every single value are those of the segments.',
     ['inputs', 'histories', 'schedules'], 'every horizon length, segment length and overlap accepted, and every legal solver answer per segment',
     'The one test uses lengths that divide evenly and compares a total.',
     ['flixOpt/calculation.py'],
     [('stitching', 'calculation.py _combine_nested_arrays'), ('state hand-over', 'calculation.py _transfer_start_values'), ('segment ranges', 'calculation.py _get_indices')],
     observe=['SegmentedCalculation.results(combined_arrays=True)', 'start_values_of_segments', 'problem passed to Solver.solve'])

prop('S02', 'An aborted segmented run restores the system\'s own start values',
     'However a segmented calculation ends - normally, by a solver failure or an interrupt in any segment, or by an error while saving - the flow system afterwards has its original previous flow rates and initial charge states, so no later calculation starts from an intermediate segment\'s state.',
     ['fault_sequences', 'crash_points', 'histories'], 'every segment and every point (modelling, solving, hand-over, saving) at which a failure or interrupt can strike',
     'No test makes a segment fail.',
     ['flixOpt/calculation.py'],
     [('start value reset', 'calculation.py _reset_start_values')],
     observe=['flow.previous_flow_rate', 'storage.initial_charge_state', 'next calculation'])

prop('A01', 'Aggregated runs tie exactly the periods the clustering put together',
     'In every solution of an aggregated calculation, any two periods assigned to one typical period have equal operation in all steps but the first of the period, for exactly the components and kinds of variables selected, up to the permitted number of deviations whose penalty is charged; '
     'other components and other periods are not tied, and aggregated data, when requested, is that of the typical period and is used only by this calculation.',
     ['inputs', 'histories', 'schedules'], 'every clustering outcome (the clustering is randomised), every selection of components, freedom percentage and solver answer',
     'One test compares a total for one clustering.',
     ['flixOpt/aggregation.py', 'flixOpt/calculation.py'],
     [('index pairs', 'aggregation.py get_equation_indices'), ('equating', 'aggregation.py AggregationModel.equate_indices'), ('data replacement', 'aggregation.py TimeSeriesCollection.insert_data')],
     observe=['AggregatedCalculation.results()', 'problem passed to Solver.solve'])

prop('V01', 'A solver that delivers no solution can never look like a success',
     'If the solver refuses, crashes, finds the problem infeasible or unbounded, stops without a solution or is interrupted, the calculation raises, reports no result values, and neither writes nor alters saved results. '
     'If it stops early with a solution, that solution is reported together with the early stop (warning and termination message), never as optimal.',
     ['fault_sequences', 'histories'], 'every solver interface shipped, every termination condition, in first and repeated solves',
     'Tests only see optimal terminations of one solver.',
     ['flixOpt/math_modeling.py', 'flixOpt/calculation.py', 'flixOpt/structure.py'],
     [('termination handling', 'math_modeling.py solver classes'), ('result reading', 'math_modeling.py PyomoModel.solve')],
     observe=['exceptions of solve', 'Solver.termination_message', 'log', 'files'])

prop('V02', 'Numerical noise in solver answers never flips a reported decision',
     'When a solver returns values off by its numerical tolerance (a binary of 0.9999999 or 1e-9, a rate of -1e-9), every reported on/off, switching, segment and investment decision is the integer the solver meant, and reported quantities differ from the exact ones by no more than that noise, in memory and in saved files.',
     ['schedules', 'inputs'], 'every solver answer within tolerance of a solution',
     'Tests run one solver version whose answers happen to be exactly integral.',
     ['flixOpt/math_modeling.py'],
     [('reading of values', 'math_modeling.py PyomoModel.solve')],
     observe=['results()'])

prop('V03', 'The settings of a solver object apply to every solve made with it',
     'The gap, the time limit, the number of threads, the log file and the console switch given to a solver object reach the solver in every solve made with it, on every solver interface, including every segment of a segmented calculation. '
     'Objective, lower bound, termination and log reported by a calculation are those of its own solve, also when the solver object served other calculations before or after; '
     'the object handed in shows its settings unchanged; an answer found within the gap or at the time limit is reported with the bound that was proven, and a time limit hit without an answer is never a success.',
     ['histories', 'configurations', 'schedules', 'clock'], 'every combination of settings, solver interface, calculation type and order of solves sharing a solver object; every duration of the simulated solve relative to the limit',
     'Tests use one solver with one set of settings and problems solved at once.',
     ['flixOpt/math_modeling.py', 'flixOpt/calculation.py'],
     [('settings handed to the solvers', 'math_modeling.py solver classes'), ('solver objects of segments', 'calculation.py SegmentedCalculation.solve'), ('reported bound', 'calculation.py FullCalculation.solve')],
     observe=['options passed to the solver interfaces', 'results()', 'infos', 'log'])

prop('D01', 'What is saved is what was calculated, and loading gives it back',
     'After a calculation with saving succeeded, loading it by name and folder yields exactly the values of the calculation\'s own results (every component, flow, bus, effect, objective and the time axis) and the inputs it was computed with, together with the name, type and range of the calculation, its main results, the network and the configuration in force, and tables made from it show those values with correct signs, times and directions. '
     'This holds for every calculation type, time resolution, number of steps and way of naming the folder (absolute, relative, default).',
     ['inputs', 'configurations', 'histories'], 'every calculated system, time resolution and calculation type; repeated saves into the same and different folders',
     'Tests load two results and look at a few series of hourly data.',
     ['flixOpt/calculation.py', 'flixOpt/structure.py', 'flixOpt/results.py', 'flixOpt/utils.py'],
     [('conversion', 'structure.py copy_and_convert_datatypes'), ('saving', 'calculation.py _save_solve_infos'), ('loading', 'results.py CalculationResults')],
     observe=['files in the results folder', 'CalculationResults'])

prop('D02', 'A crash while saving never yields a mixed or truncated result on loading',
     'If the process dies or is interrupted at any point while a calculation is saved, or a write fails or is cut short, then loading that calculation afterwards either fails or gives one complete saved run - the earlier one or the new one - never a mixture of two runs nor a truncated one. '
     'Saving again afterwards works, and results saved under other names stay loadable and unchanged throughout.',
     ['crash_points', 'fault_sequences', 'histories'], 'every point between and inside the file operations of saving, over every sequence of saves to the same name',
     'No test interrupts or fails a write.',
     ['flixOpt/calculation.py', 'flixOpt/results.py'],
     [('write order and publication of the result files', 'calculation.py _save_solve_infos'), ('load order', 'results.py CalculationResults.__init__')],
     observe=['CalculationResults after restart'])

prop('D03', 'An I/O error while writing is never reported as success',
     'If a file operation fails while results are saved, a system is exported to JSON, or a plot or network picture is written (disk full, I/O error, folder missing or read-only), the operation raises; when it returns normally the file asked for exists and is complete. '
     'In-memory results and later operations are unaffected by the failure.',
     ['fault_sequences', 'histories'], 'every file operation of every saving and exporting function, each kind of error',
     'Tests never make a file operation fail.',
     ['flixOpt/calculation.py', 'flixOpt/structure.py', 'flixOpt/flow_system.py', 'flixOpt/plotting.py', 'flixOpt/results.py'],
     [('file writing', 'calculation.py _save_solve_infos, structure.py to_json, flow_system.py to_json, plotting.py')],
     observe=['exceptions', 'files'])

prop('D04', 'Calculations write only what they were asked to, where they were asked to',
     'Solving without saving creates or changes no file except the configured log and the solver\'s own log, and the log file name given to a solver is honoured; solving with saving changes only files of that calculation inside the results folder. '
     'Any number of calculations with different names can share one folder, in any order and despite failures of some, without affecting each other\'s files.',
     ['histories', 'fault_sequences', 'configurations'], 'every sequence of solves with and without saving, shared solver objects, names and folders',
     'Tests do not look at the file system besides the files they load.',
     ['flixOpt/calculation.py', 'flixOpt/math_modeling.py'],
     [('path definition', 'calculation.py _define_path_names'), ('solver log', 'math_modeling.py HighsSolver.solve')],
     observe=['file system before and after'])

prop('R01', 'The same script gives the same problem and the same files every time',
     'Running the same sequence of operations again - in another process, with another hash seed or memory layout, at another wall-clock time or with a clock that jumps - hands the solver the identical problem in the identical order and writes identical result, data and info files, apart from recorded durations and solver timings.',
     ['schedules', 'configurations', 'histories'], 'every system and operation sequence; every hash seed, object layout and clock behaviour',
     'Tests run once per process and compare nothing between runs.',
     ['flixOpt/flow_system.py', 'flixOpt/components.py', 'flixOpt/calculation.py', 'flixOpt/structure.py'],
     [('ordered collections', 'flow_system.py flows/buses'), ('equation assembly order', 'components.py LinearConverterModel.do_modeling'), ('clock use', 'timeit in calculation.py, math_modeling.py')],
     observe=['problem passed to Solver.solve', 'saved files'])

prop('C01', 'A failed configuration load leaves the running configuration intact',
     'Loading a configuration either succeeds completely - all settings and the logging set-up correspond to that file - or raises and leaves settings, log level and log destinations exactly as they were, whatever is wrong: missing, unreadable or malformed file, missing or invalid values, unopenable log file. '
     'Reloading any number of times never duplicates log output or leaks open log files.',
     ['fault_sequences', 'histories', 'configurations'], 'every sequence of good and bad configuration loads with a fault at any file operation',
     'Tests never load a user configuration.',
     ['flixOpt/config.py'],
     [('validation', 'config.py dataclass_from_dict_with_validation'), ('assignment', 'config.py CONFIG.load_config'), ('handlers', 'config.py setup_logging')],
     observe=['CONFIG.to_dict()', "logging.getLogger('flixOpt').handlers"])

prop('C02', 'The constants of the loaded configuration are those of every later model',
     'After a configuration was loaded, every system built and modelled afterwards uses its constants: flows and investments without a limit are bounded by BIG; '
     'EPSILON is the least rate of what is on, the least size of what is invested, and the threshold that decides whether a previous rate was on. '
     'Optimum and every accepted answer are those of the described system with these constants; earlier loads and refused loads leave no trace in the model.',
     ['histories', 'configurations', 'fault_sequences'], 'every sequence of successful and refused loads and models between them, every value of the constants that is apart from solver tolerances',
     'Tests run with the constants of the default file only.',
     ['flixOpt/config.py', 'flixOpt/elements.py', 'flixOpt/features.py', 'flixOpt/interface.py'],
     [('constants', 'config.py CONFIG.modeling'), ('default sizes', 'elements.py Flow, interface.py InvestParameters'), ('thresholds', 'features.py OnOffModel, InvestmentModel')],
     observe=['problem passed to Solver.solve', 'results()'])

prop('F01', 'Tables and figures show the results they are made from',
     'After any calculation (full, partial, segmented, aggregated) was solved, saved and loaded, every table and figure made from it, in any order and also after an earlier one failed on a disk error, '
     'shows exactly the flows of its element: every value at the time and for the duration of its step, with the sign of its direction, the charge state with its end value, every cell of a heat map at its period and step, '
     'every flow of a network picture as an arrow in its direction, the original and aggregated data of an aggregation. Figures never fail on values that are all zero. A figure is written to the file asked for (absolute or relative, text or path object), '
     'changes no other file and not the loaded results, and opens a browser only if it is to be shown.',
     ['inputs', 'histories', 'fault_sequences'], 'every system, calculation, accepted answer and sequence of figures with disk errors',
     'Plots are only checked for being producible, and not at all by the reliable tests.',
     ['flixOpt/plotting.py', 'flixOpt/results.py', 'flixOpt/flow_system.py', 'flixOpt/aggregation.py'],
     [('figure construction', 'plotting.py with_plotly, with_matplotlib, heat_map_*, visualize_network'), ('tables', 'results.py to_dataframe'), ('network', 'flow_system.py network_infos')],
     observe=['plotly and matplotlib figures', 'pyvis Network', 'files', 'webbrowser.open'])

prop('T01', 'Calculations in parallel threads do not disturb each other',
     'When several threads each build, model, solve and save their own flow system, then under every interleaving each thread obtains exactly the result, files and errors it would have obtained alone.',
     ['schedules', 'fault_sequences'], 'every interleaving of threads working on separate systems, with failures in some of them',
     'Tests are single-threaded.',
     ['flixOpt/calculation.py', 'flixOpt/math_modeling.py', 'flixOpt/structure.py', 'flixOpt/config.py'],
     [('no module-level mutable state besides configuration', 'whole package')],
     observe=['results', 'files', 'problem passed to Solver.solve'])

prop('N01', 'Date ranges are generated with the requested start, step and length',
     'The date-time array helper returns exactly the requested number of equally spaced time stamps from the start, or all up to the given end.',
     ['inputs'], 'every start, step, frequency and end', 'Only a few literals are used.',
     ['flixOpt/flow_system.py'], [('array construction', 'flow_system.py create_datetime_array')])

prop('N03', 'Implausible inputs are reported to the user',
     'Parameter values outside their documented plausible ranges and invalid labels produce a warning or error naming the element.',
     ['inputs'], 'every parameter value and label', 'Not tested.',
     ['flixOpt/linear_converters.py', 'flixOpt/utils.py', 'flixOpt/structure.py'], [('checks', 'linear_converters.py check_bounds, utils.py label_is_valid')])

prop('N04', 'Textual descriptions of elements and models are faithful',
     'Printed and saved descriptions of elements, variables and equations state the parameters, bounds and coefficients actually used.',
     ['inputs'], 'every element and model', 'Only that strings are produced is exercised.',
     ['flixOpt/structure.py', 'flixOpt/math_modeling.py'], [('descriptions', 'structure.py get_compact_representation, math_modeling.py description')])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
text = ''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P)
out.write_text(text, encoding='utf-8')
print(len(P), 'properties')
