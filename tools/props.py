PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, **kw))


TREE = 'bounded exhaustive exploration of operation histories on the real code, with snapshot and restore, against a reference model'
ENUM = 'exhaustive enumeration of a bounded input/configuration space on the real code against an independent reference model'

P('B01', 'Bed layers keep their mass and every deposit and erosion keeps its budget',
  'Whatever sequence of erosion and deposition a bed column undergoes, every bed layer keeps its total mass, no fraction becomes '
  'negative, and the composition follows from moving sediment up from below (from the initial composition under the lowest layer) on '
  'erosion and down on deposition. The bed level changes by exactly the net deposited mass, and one column never influences another.',
  ['histories', 'configurations'],
  'all sequences of pickup vectors (no change, partial and full erosion, deposits from 0.02 to 9 layer masses, mixed fractions) over '
  'columns of 1-4 layers and 1-3 fractions',
  'The regression test runs a few cases with tiny bed changes; deposits larger than one layer and mixed erosion and deposition of '
  'fractions are never reached, and no test looks at layer masses.',
  ['aeolis/bed.py'], [('bed.update', 'aeolis/bed.py'), ('prevent_negative_mass', 'aeolis/bed.py'), ('arrange_layers', 'aeolis/bed.py')],
  TREE, observe=['mass', 'zb', 'zs'])

P('T01', 'Never more sediment is picked up than the top bed layer holds',
  'In every time step and every cell, the pickup of each sediment fraction is at most the mass of that fraction in the top bed layer, '
  'and neither the airborne sediment nor the bed composition becomes negative or non-finite. Fraction weights stay between zero and '
  'one and sum to at most one; without wind the bed does not change at all.',
  ['histories', 'configurations'],
  'all wind histories (calm, onshore, oblique, seaward, alongshore; weak to storm) up to a depth over scarce beds, for every solver, '
  'numerical scheme, bed interaction and boundary set',
  'Supply limitation is an iterative correction that depends on the history of bed composition and wind; the tests only compare a few '
  'long runs with plentiful sediment against stored output of the same code.',
  ['aeolis/model.py', 'aeolis/transport.py', 'aeolis/bed.py'],
  [('weight iteration in the solvers', 'aeolis/model.py: solve, solve_steadystate, solve_pieter, solve_steadystatepieter'),
   ('compute_weights, renormalize_weights', 'aeolis/transport.py')], TREE, observe=['pickup', 'mass', 'Ct', 'w'])

P('T02', 'Transport conserves sediment between air, bed and boundaries',
  'With the implicit scheme and the steady state solvers, in every step, cell and fraction the change of airborne sediment plus the net '
  'outflow equals the pickup from the bed, and the bed level and the bed composition change by exactly that pickup. No sediment is lost '
  'or gained laterally on periodic or one-dimensional grids, and a calm step reports no pickup and no flux.',
  ['histories', 'configurations'],
  'all wind histories to a depth, for four solvers, one to many grid rows, square and non-square cells, uniform and varied beds, '
  'plentiful and scarce sediment, with and without acceleration',
  'No test evaluates a sediment budget; stored output of earlier versions reproduces whatever imbalance the code had.',
  ['aeolis/model.py', 'aeolis/bed.py', 'aeolis/gridparams.py'],
  [('linear system of the advection equation', 'aeolis/model.py: solve*'), ('cell sizes', 'aeolis/gridparams.py: initialize'),
   ('bed update', 'aeolis/bed.py: update')], TREE, observe=['Ct', 'pickup', 'zb', 'mass', 'us', 'un'])

P('T03', 'Results do not depend on the orientation or numbering of the grid',
  'Rotating the grid and the wind together, mirroring bed and wind, renumbering rows of a periodic grid, moving the origin, giving the wind '
  'in the other convention, or simulating a uniform coast with one row instead of many leaves bed level, composition, airborne sediment, '
  'pickup, thresholds and grid-relative fluxes the same (up to the transformation).',
  ['histories', 'configurations'],
  'all wind histories to a depth, under eleven transformations, for four solvers and nine process sets',
  'The tests use one orientation per case; a sign error in a rotation or the wrong neighbour at one boundary only appears for other '
  'orientations or wind directions.',
  ['aeolis/model.py', 'aeolis/wind.py', 'aeolis/gridparams.py', 'aeolis/avalanching.py', 'aeolis/transport.py'],
  [('grid_rotate', 'aeolis/model.py: grid_rotate'), ('boundary handling in solvers', 'aeolis/model.py: solve*'), ('wind decomposition', 'aeolis/wind.py: interpolate')],
  'exhaustive lock-step exploration of pairs of real models over all bounded wind histories (symmetry as the oracle)', observe=['zb', 'Ct', 'pickup', 'us', 'un'])

P('T04', 'Equilibrium concentration and grain speed follow the chosen formulation',
  'In every cell and for every fraction the equilibrium concentration is that of the chosen transport formulation for the local shear '
  'velocity, threshold, grain size, grain speed and acceleration; it is zero below the threshold and during calm and depends on the present '
  'wind only. The grain speed is that of the chosen formulation and points with the wind.',
  ['histories', 'configurations'],
  'every formulation x grain speed x grid rows x fractions x acceleration, eight thresholds per grid, all wind histories to a depth',
  'Only one formulation is used by the tests, at plentiful wind; the others, and their treatment of cells below threshold, calm and '
  'changing wind, are never run.',
  ['aeolis/transport.py'], [('equilibrium', 'aeolis/transport.py: equilibrium'), ('duran_grainspeed', 'aeolis/transport.py: duran_grainspeed'),
   ('constant_grainspeed', 'aeolis/transport.py: constant_grainspeed')], TREE, observe=['Cu', 'Cuf', 'Cu0', 'u', 'us', 'un'])

P('T05', 'The threshold follows from the present bed surface alone',
  'The shear velocity threshold of each cell and fraction is the Bagnold threshold changed by exactly the enabled moisture, salt, sheltering, '
  'mask and non-erodible layer factors evaluated for the present surface: no factor compounds over time steps, one cell never '
  'influences another, a wetter surface never has a lower threshold and a saturated cell (or a cell at its non-erodible layer) emits nothing.',
  ['histories', 'configurations'],
  'all moisture formulations x salt x sheltering x mask x non-erodible bed x tide x rows x grain sizes, and all histories of surface '
  'states (dry, ladder, reversed, saturated) to a depth',
  'The unit tests do not cover thresholds; one formulation occurs in the regression cases with dry sand.',
  ['aeolis/threshold.py'], [('compute', 'aeolis/threshold.py: compute'), ('compute_moisture', 'aeolis/threshold.py: compute_moisture'),
   ('non_erodible', 'aeolis/threshold.py: non_erodible')], TREE, observe=['uth', 'uthf', 'uth0'])

P('S01', 'Time advances by the admissible step, and skipped steps change nothing',
  'Every call of update advances the time by the requested step limited by the Courant condition (explicit scheme), by the maximum bed level '
  'change and by the configured step, multiplied by the acceleration factor; fast-forward calls execute to exactly the requested time, calls '
  'that cannot step leave the state untouched, and the grid orientation is restored after every call.',
  ['histories', 'configurations'],
  'all sequences of (wind, requested step) to a depth for every scheme, grid, Courant number, acceleration and bed level limit',
  'Tests call update a handful of times with the default step of the implicit scheme.',
  ['aeolis/model.py'], [('set_timestep', 'aeolis/model.py: set_timestep'), ('update', 'aeolis/model.py: update')], TREE,
  observe=['t', 'dt', 'x', 'y'])

P('W01', 'Wind and shear velocity follow the wind series',
  'At every time, wind speed, direction and components equal the interpolation of the series (direction over the shortest arc) in the '
  'given convention, the shear velocity equals the logarithmic profile with the chosen roughness formulation, and stresses and '
  'components are consistent with it, for any grid orientation and also when the wind is prescribed through set_var.',
  ['inputs', 'configurations'],
  'all wind series of a bounded number of entries over speeds and directions, at all knots, gaps and exterior times, for all roughness formulations',
  'Tests use constant wind series, where any interpolation error is invisible.',
  ['aeolis/wind.py', 'aeolis/utils.py'], [('interpolate', 'aeolis/wind.py: interpolate'), ('interp_circular', 'aeolis/utils.py: interp_circular'),
   ('calculate_z0', 'aeolis/wind.py: calculate_z0')], ENUM, observe=['uw', 'udir', 'uws', 'uwn', 'ustar', 'tau'])

P('W02', 'Shear stress over topography follows the perturbation theory',
  'With shear enabled the stress over any bed equals the undisturbed stress times the analytical perturbation (convolution in 1-D, Fourier '
  'solution on a wind-aligned grid in 2-D), whatever the wind direction, grid orientation, origin and elevation: a flat bed at any level is '
  'unperturbed, a mirrored bed under mirrored wind gives the mirrored stress, the separation surface is the third-order polynomial from the brink '
  'to the foot of a steep lee slope, never below the bed and absent on gentle slopes, and reduces stress and shear velocity consistently.',
  ['inputs', 'configurations'],
  'all beds of a few cells over three heights, and six 2-D shapes x levels x origins x rotations x roughness x separation, under nine winds',
  'Shear in two dimensions has no test with an expected result here, and the one-dimensional cases only compare one dune under one wind.',
  ['aeolis/shear.py', 'aeolis/wind.py'], [('compute_shear', 'aeolis/shear.py: WindShear'), ('compute_shear1d, separation1d', 'aeolis/wind.py')],
  ENUM, observe=['tau', 'taus', 'taun', 'ustar', 'zsep', 'hsep'])

P('B03', 'Avalanching relaxes every steep slope and conserves volume',
  'After a time step with avalanching no slope steeper than the dynamic angle remains if any slope exceeded the static angle, a bed '
  'below the static angle does not move at all, the volume is conserved (only sediment sliding over the border leaves), no new '
  'extremes arise, the bed never drops below the non-erodible layer, and both grid directions are treated alike.',
  ['histories', 'inputs'],
  'all small beds (1-D over four heights, 2-D all patterns of 3 x 3 cells) x cell sizes x angles x non-erodible layers, and histories of disturbances',
  'One regression case lets one dune avalanche; slopes, volume and the non-erodible layer are not examined and two dimensions are not covered.',
  ['aeolis/avalanching.py'], [('avalanche', 'aeolis/avalanching.py: avalanche'), ('calc_gradients', 'aeolis/avalanching.py: calc_gradients')],
  TREE, observe=['zb', 'gradh'])

P('H01', 'Water levels, waves and runup follow their series and masks',
  'At every time the still water level, wave height and period in each cell equal the interpolation of their series (repeated beyond the '
  'end) multiplied by their masks; the wave height is limited by the local depth and is zero on dry cells; runup and setup follow the Stockdon '
  'formula for the offshore wave and the beach slope; fields of an external model are used as given, dry cells taking the level of the nearest wet cell; the total water level never lies below the bed, and a disabled process has no effect.',
  ['inputs', 'configurations'],
  'all tide and wave series of a few entries, at all knots, gaps and exterior times, times all process/file/mask combinations in one and two dimensions',
  'No test looks at water levels; the regression cases have one fixed tide.',
  ['aeolis/hydro.py'], [('interpolate', 'aeolis/hydro.py: interpolate'), ('calc_runup_stockdon', 'aeolis/hydro.py: calc_runup_stockdon')],
  ENUM, observe=['zs', 'SWL', 'TWL', 'DSWL', 'Hs', 'Tp', 'R', 'eta'])

P('H02', 'Moisture, salt, mixing and bed reset follow the water level history',
  'A flooded cell is saturated and dries exponentially once emerged, whatever the sequence of floods; salt accumulates and decays per cell; waves '
  'mix the bed over the depth of disturbance of flooded cells only and conserve the mass of every fraction; the wet bed reset relaxes only '
  'wet cells towards the initial bed. Disabled processes change nothing.',
  ['histories', 'configurations'],
  'all histories of water level x wave height x wind to a depth for all process combinations, layer and fraction counts, time steps and grids',
  'These processes have memory; no test runs them through more than one flood or compares them with a reference.',
  ['aeolis/hydro.py', 'aeolis/bed.py'], [('update', 'aeolis/hydro.py: update'), ('mixtoplayer', 'aeolis/bed.py: mixtoplayer'), ('wet_bed_reset', 'aeolis/bed.py: wet_bed_reset')],
  TREE, observe=['moist', 'salt', 'mass', 'zb'])

P('H03', 'Groundwater and surface moisture follow the water level history',
  'The groundwater of every grid row follows the Boussinesq equation between shoreline and landward boundary, independent of other rows and of '
  'the number of sub-steps, never stands above bed and water level, and equals the water level in submerged cells. Surface moisture is '
  'the larger of the water balance and the capillary moisture on the retention or scanning curve and stays between residual and satiated.',
  ['histories', 'configurations'],
  'all histories of four water levels, waves and rain to a depth, for both landward boundaries, seepage, sub-steps, masks, scanning curves, rows and start times',
  'No test runs the groundwater module; its behaviour depends on the history of reversals of the water level.',
  ['aeolis/hydro.py'], [('update', 'aeolis/hydro.py: update'), ('Boussinesq', 'aeolis/hydro.py: Boussinesq'), ('SWR_curve, hdelta', 'aeolis/hydro.py')],
  TREE, observe=['gw', 'gw_prev', 'moist', 'moist_swr', 'h_delta'])

P('V01', 'Vegetation germinates, spreads, grows, drowns and shelters as specified',
  'Whatever the random generator answers, a plant appears only with the configured probability (scaled to time step and cell size) on a non-eroding cell or next to denser '
  'vegetation, grows by its growth law under burial over the time step that was taken, dies when flooded or below the minimum elevation and does not come back by itself; cover and '
  'height stay in range and consistent, and the shear velocity is reduced by the Raupach or Okin factor, on the lee side, without turning the wind.',
  ['histories', 'schedules', 'configurations'],
  'all patterns of random answers x wind x water level histories to a depth, for both growth laws, both roughness models, rows, cell sizes, probabilities and time steps',
  'Germination is random, so tests cannot reproduce a particular outcome; the regression cases have no germination and no flooding of plants.',
  ['aeolis/vegetation.py', 'aeolis/bed.py'], [('germinate', 'aeolis/vegetation.py: germinate'), ('grow', 'aeolis/vegetation.py: grow'), ('vegshear', 'aeolis/vegetation.py: vegshear*'),
   ('average_change', 'aeolis/bed.py: average_change')], TREE + '; the random generator is an enumerated choice point', observe=['rhoveg', 'hveg', 'germinate', 'lateral', 'vegfac', 'ustar'])

P('F01', 'Fences shelter their lee, get buried and are lost',
  'The height of every fence is its top minus the bed, zero if the bed comes within 0.1 m of it and for good if it is undermined by more than 1.5 m; the shear velocity in its lee is the '
  'undisturbed one times the Okin factor of the fences upwind, at any distance along the wind, elevation, grid orientation and origin; without fences upwind nothing changes; fences never increase '
  'the wind and never turn it.',
  ['histories', 'inputs'],
  'all histories of burial and erosion to a depth, all 1-D patterns of fences x winds x orientation, 16 2-D patterns x winds x cell sizes x origins x rotations',
  'No stable test runs the fence module; burial depends on the history of the bed.',
  ['aeolis/fences.py'], [('update_fence_height', 'aeolis/fences.py: update_fence_height'), ('fence_shear1d', 'aeolis/fences.py: fence_shear1d'), ('fence_shear2d', 'aeolis/fences.py: fence_shear2d')],
  TREE, observe=['fence_height', 'ustar', 'ustars', 'ustarn', 'tau'])

P('D01', 'Dune erosion follows the collisions of the runup with the dune',
  'In every step and row the dune is eroded along the toe trajectory up to the cell where the volume that the collisions of the present water level, runup and time step can remove '
  '(Palmsten and Holman, 2012) is used up; the bed never rises, nothing is eroded as long as the total water level is below the toe or there are no waves, rows do not influence each other, '
  'and the result depends on the present bed only.',
  ['histories', 'configurations'],
  'all histories of water level x waves x wind to a depth over four profiles x toes x slopes x cell sizes x rows x coefficients',
  'No test runs the dune erosion module.',
  ['aeolis/erosion.py'], [('run_ph12', 'aeolis/erosion.py: run_ph12')], TREE, observe=['zb'])

P('O01', 'Output statistics cover exactly the steps since the last output',
  'Whatever sequence of time steps, requests of variables and outputs a runner goes through, every requested average, sum, variance, minimum and maximum is that of exactly the states after the '
  'time steps since the last output or clearing request, an instantaneous output is the present state (divided by the acceleration factor for concentrations), names with an underscore or a point are '
  'split at the statistic only, and output is written as soon as the output interval is reached.',
  ['histories', 'configurations'],
  'all sequences of time steps, changes and requests with and without clearing and writes to a depth for five sets of output variables, three intervals, start times, acceleration, 1-D and 2-D',
  'Tests only compare averages of one regular run; the order of requests, the first interval and the clearing are never varied.',
  ['aeolis/model.py'], [('output_update, output_clear, output_write', 'aeolis/model.py: AeoLiSRunner'), ('get_statistic', 'aeolis/model.py: AeoLiSRunner.get_statistic')],
  TREE, observe=['o', 'get_var', 'get_statistic'])

P('O02', 'A run writes every due record of the simulation to the output file',
  'A complete run from any start to any end writes the initial state and one record for every output interval that was reached, each with the time, the time bounds, the values and '
  'the statistics of a plain model stepped by hand with the same callback; the file has the declared dimensions, coordinates and units, and the simulation stops at the end time whatever the scheme, '
  'acceleration, winds and working directory.',
  ['configurations', 'histories'],
  'all combinations of start, end, time step, interval, acceleration, scheme, winds, grid, callback form and addressing of the configuration file',
  'The regression cases start at zero with one interval and without callback.',
  ['aeolis/model.py', 'aeolis/netcdf.py'], [('run', 'aeolis/model.py: AeoLiSRunner.run'), ('update', 'aeolis/model.py: AeoLiSRunner.update'), ('initialize, append', 'aeolis/netcdf.py')],
  ENUM, observe=['time', 'time_bounds', 'zb', 'Ct'])

P('O03', 'A restarted simulation continues as the uninterrupted one',
  'Wherever between two time steps a simulation is stopped, a new model that loads the restart file continues bit for bit as the uninterrupted simulation, however often this is repeated and '
  'whatever processes, solver, scheme and grid are used; restart files are written at every restart interval under the name of their time, and a file that was only partly written is refused.',
  ['crash_points', 'configurations'],
  'all subsets of the step boundaries as stop and restart points for fifteen sets of processes, solvers, schemes and grids; truncation of the restart file at every block',
  'No test restarts a simulation.',
  ['aeolis/model.py'], [('load_hotstartfiles, dump_restartfile, load_restartfile', 'aeolis/model.py: AeoLiSRunner')],
  'exhaustive enumeration of crash points and truncations on the real code against the uninterrupted run', observe=['restart file', 's', 't', 'c'])

P('C01', 'A configuration file gives exactly the values written in it',
  'Every line of a configuration file assigns to its key the number, list, flag, None, name, file content or date written in it, whatever its spacing, comments, order, repetition and line ends; '
  'numbers may be written in scientific notation, names that look like numbers stay names, lists stay lists where the model needs lists, and keys that are absent keep their default.',
  ['inputs'],
  'all strings of a number grammar and a word list alone and in lists, all line layouts, all sequences of lines of an alphabet, every parameter of the default configuration',
  'Unit tests parse a handful of values.',
  ['aeolis/inout.py'], [('read_configfile', 'aeolis/inout.py'), ('parse_value', 'aeolis/inout.py'), ('check_configuration', 'aeolis/inout.py')],
  ENUM, observe=['p'])

P('C02', 'A written configuration reads back the same and backups are kept',
  'Whatever changes were made to the parameters, a written configuration file reads back as exactly the same parameters (numbers, lists, flags, names, masks, matrices and None), and writing never '
  'loses an earlier file: it is kept byte for byte under the next free backup name.',
  ['histories', 'inputs'],
  'all sequences of changes, writes and removals to a depth; numbers of all magnitudes, lists, flags, names, matrices; all patterns of earlier backups',
  'The stable test writes no configuration files.',
  ['aeolis/inout.py'], [('write_configfile', 'aeolis/inout.py'), ('backup', 'aeolis/inout.py: backup')],
  TREE, observe=['configuration file', 'backup files'])

P('T06', 'Sediment crosses the boundaries as prescribed, for every solver and scheme',
  'In every step the airborne sediment is the solution of the upwind scheme (explicit, implicit or semi-implicit in time, or steady) with the prescribed boundaries: a constant boundary carries '
  'exactly the configured flux, a flux boundary the configured fraction of the equilibrium flux, a uniform or gradient boundary follows its neighbours, a circular lateral boundary joins the first and last '
  'row, a constant one lets nothing in, and in one dimension the lateral boundary has no effect. After a long constant wind the transient solvers agree with the steady state ones.',
  ['histories', 'configurations'],
  'all pairs of departures from the default boundaries, fluxes, rows, cell sizes, varying wind and fractions for four solvers and three schemes, all wind histories to a depth',
  'The tests use one boundary set, one scheme and one solver.',
  ['aeolis/model.py'], [('solve, solve_steadystate', 'aeolis/model.py'), ('solve_pieter, solve_steadystatepieter', 'aeolis/model.py'), ('euler_forward, euler_backward, crank_nicolson', 'aeolis/model.py')],
  TREE, observe=['Ct', 'us', 'un', 'w', 'Cu'])

P('E01', 'Any combination of processes runs and keeps the state finite and in range',
  'For every combination of the processes and options of the model, and every history of wind, tide, waves and rain, each time step completes, time advances, every spatial grid keeps its shape, is finite, '
  'and stays in its physical range (concentrations, masses, thresholds, wave heights and covers not negative; weights and covers at most one). Switching a process off leaves its quantities alone, and a '
  'process that has nothing to act on (no water, plants, fences, steep slopes or moisture) changes nothing in the result.',
  ['configurations', 'histories'],
  'all pairs of 31 processes and options (with what they need) in one and two dimensions, all histories of four forcings to a depth; 20 idle processes added to every smaller combination',
  'The processes interact through shared grids and each has its own switch; the tests run three combinations, on one forcing each.',
  ['aeolis/model.py', 'aeolis/hydro.py', 'aeolis/bed.py', 'aeolis/threshold.py', 'aeolis/transport.py', 'aeolis/wind.py', 'aeolis/shear.py', 'aeolis/vegetation.py', 'aeolis/fences.py', 'aeolis/avalanching.py', 'aeolis/erosion.py'],
  [('AeoLiS.update', 'aeolis/model.py'), ('process_ switches', 'aeolis/constants.py')], TREE,
  observe=['zb', 'Ct', 'mass', 'uth', 'ustar', 'moist', 'rhoveg'])

P('C04', 'Documented option names select their own method and any other name is refused',
  'For every option that selects a method, boundary or scheme, each documented name runs and selects a method of its own, also in combination with the names of related options. Any other value, however close '
  'to a documented one, is refused with an error before the end of the first step; it never silently selects some method.',
  ['inputs', 'configurations'],
  'all single edits of all 53 documented names of 14 options, all names of other options and other values; documented names combined with every name of related options',
  'The tests use the default names and a few others; a misspelt name that falls through to some method gives plausible results.',
  ['aeolis/model.py', 'aeolis/transport.py', 'aeolis/threshold.py', 'aeolis/wind.py', 'aeolis/hydro.py', 'aeolis/vegetation.py'],
  [('dispatch on option names', 'aeolis/model.py, transport.py, threshold.py, wind.py, hydro.py, vegetation.py')], ENUM, observe=['zb', 'Ct', 'uth'])

P('C03', 'Callbacks run before every step, and a failing run loses nothing it wrote',
  'A valid callback is called exactly once at the start of every time step, and any definition that does not refer to a function is refused before the first step. Wherever a run stops (by an exception in the '
  'callback, an interrupt, a killed process or a failing write), the working directory is restored, the output file holds exactly the records due until then, and continuing from any completed restart file '
  'ends in the state of the uninterrupted run.',
  ['crash_points', 'fault_sequences', 'configurations'],
  'all callback definitions of an alphabet in every place; every step and every write of runs with all schemes as point of failure, for seven kinds of failure',
  'No test lets a run fail; a run without its callback looks like any other.',
  ['aeolis/model.py', 'aeolis/netcdf.py'], [('AeoLiSRunner.run, parse_callback, output_write, dump_restartfile', 'aeolis/model.py'), ('append', 'aeolis/netcdf.py')],
  'exhaustive enumeration of crash and fault points of runs of the real code, against the uninterrupted run', observe=['output file', 'restart files', 'working directory'])

P('M01', 'What is set through the interface is what is returned and simulated with',
  'Every grid and parameter that is set by name or index is returned with the same value, shape and rank, unknown names are reported as such and change nothing, and setting one never changes another; frozen '
  'grids ignore assignment, also after copying. A parameter set at any moment has from then on exactly the effect of the same value in the configuration file.',
  ['histories', 'configurations'],
  'all grids and parameters of ten process sets, all numeric parameters set before each of the first steps, all sequences of set, get, freeze, copy and step operations to a depth',
  'The tests get and set a few variables of one model; that no parameter is cached anywhere is a statement about every parameter and process.',
  ['aeolis/model.py'], [('get_var, set_var, set_var_index, get_var_name, ...', 'aeolis/model.py'), ('ModelState', 'aeolis/model.py')], TREE, observe=['all grids', 'all parameters'])

P('N01', 'A model starts from exactly the bed and composition it is given',
  'In whatever form the grid, bed, composition, masks and thresholds are given (one or more rows, any orientation and origin, weights as whole or real numbers, per layer or per cell, thickness per bed or per layer), '
  'a new model has exactly that bed, those cell sizes and that composition: the mass of every layer is its thickness times the density of the bed, divided over the fractions by the normalised weights, and it stays so '
  'without wind. A composition or bed that is dumped from any record of an output file gives a new model exactly the state of that record.',
  ['configurations', 'histories'],
  'all combinations of the form of the composition, layers, fractions, thickness, grid and masks; all records and variables of the output of all wind histories to the depth',
  'The tests read two complete configurations; forms of the input are not combined and dump is not tested.',
  ['aeolis/bed.py', 'aeolis/gridparams.py', 'aeolis/netcdf.py', 'aeolis/inout.py'], [('initialize', 'aeolis/bed.py'), ('initialize', 'aeolis/gridparams.py'), ('dump', 'aeolis/netcdf.py'), ('initialize', 'aeolis/model.py: AeoLiS.initialize')],
  ENUM, observe=['zb', 'mass', 'thlyr', 'ds', 'dn'])

P('M02', 'Models in one process do not influence each other and results are reproducible',
  'Whatever models are created, initialised, stepped and finished in whatever order in one process, each behaves bit for bit as on its own. Repeating a history in a new model, in a copy or pickled copy, or in the '
  'same model initialised again gives exactly the same states, and the default configuration never changes.',
  ['schedules', 'histories'],
  'all interleavings of the operations of all pairs of a set of models; all histories of forcing repeated four ways; all orders of complete runs',
  'Hidden state in modules, shared defaults or caches shows only with particular combinations and orders of models; each test uses one model.',
  ['aeolis/model.py', 'aeolis/constants.py', 'aeolis/inout.py', 'aeolis/shear.py', 'aeolis/netcdf.py'],
  [('AeoLiS.initialize, AeoLiSRunner', 'aeolis/model.py'), ('DEFAULT_CONFIG, MODEL_STATE', 'aeolis/constants.py')],
  'exhaustive exploration of all interleavings of the operations of two instances of the real code', observe=['all grids', 'all parameters', 'output files'])

P('K01', 'The commands run exactly the configured model and touch no other files',
  'Whatever commands are given one after another, in whatever directory and with whatever form of address, a run writes exactly the output of the configured model with the given callback and restart file, next to its '
  'configuration, and changes no other file. A command that cannot be executed (a missing or unreadable configuration, input, callback or restart file, or an outdated syntax) fails and leaves all results as they '
  'were. The examples are copied unchanged and never over an existing copy.',
  ['histories', 'configurations'],
  'all sequences of commands to the depth, with the complete directory tree as state',
  'The tests call single commands with help or without arguments; results left by earlier commands are never at stake.',
  ['aeolis/console.py', 'aeolis/model.py', 'aeolis/netcdf.py'],
  [('run, wind, examples, start_aeolis_app', 'aeolis/console.py'), ('AeoLiSRunner.run, read_restartfile, parse_callback', 'aeolis/model.py')],
  'exhaustive exploration of all sequences of commands of the real code against a model of the directory tree', observe=['exit status', 'working directory', 'all files'])

P('G01', 'Generated wind follows the requested distribution for all random numbers',
  'A generated wind series is a Markov chain over the wind speed classes: whatever the random numbers, each class depends on the previous one only, speeds are uniform within their class and between zero and the '
  'maximum, and the chain has the Weibull distribution with the requested mean as its only stationary distribution, in which strong winds follow strong winds. The series has regular times from zero that just cover the '
  'duration, is written unchanged to a file the model accepts, and the command passes on its options.',
  ['inputs', 'histories', 'configurations'],
  'all successors of all reachable wind speed classes for all grids of mean, maximum, classes and shape; all sequences of answers of the random number generator to a depth; all durations and time steps of a set',
  'The generator is random: a test can only look at some series, and never at the random numbers at which it fails.',
  ['aeolis/model.py', 'aeolis/console.py'], [('WindGenerator', 'aeolis/model.py'), ('wind', 'aeolis/console.py')],
  'exhaustive enumeration of the answers of the random number generator of the real code (the complete transition system), against the documented distribution', observe=['wind speed series', 'wind file'])
