NOT_APPLICABLE = []

prop('C01', 'Time steps apply the configured Runge-Kutta scheme exactly',
     'For each of the nine selectable schemes and without step control, one time step evaluates the right-hand side at the stage states of that scheme\'s '
     'published tableau, in order, and adds the published weighted sum of these evaluations to the conservative variables. Hence the step '
     'integrates the semi-discrete equations with the order of accuracy of the scheme, and time advances by exactly the step width used.',
     ['inputs', 'configurations'], 'every state, every right-hand side value, every step width, every scheme',
     'The unit tests only compare tableau entries and run two shock tubes to the end without looking at the result; a first order method passes them.',
     ['src/time/rkf.rs', 'src/time/rkf/butchertableau.rs'],
     [('stage loop', 'src/time/rkf.rs calc_rkf_solution'), ('tableaus', 'src/time/rkf/butchertableau.rs')],
     'All stage inputs and the final state, as exact linear combinations, S=6 cells, E=2, one step and two steps in a row, every value symbolic; order conditions of the reference tableaus are checked numerically.')

prop('C02', 'The HLL flux is the HLL flux',
     'The HLL scheme returns, for every interior cell and equation, the difference of the numerical fluxes of its two faces divided by the cell volume, where a face flux is the '
     'HLL combination of the physical fluxes and states of the two adjacent cells with wave speeds min(0, .) and max(0, .) of both cells. It '
     'neither modifies the conservative state nor depends on an earlier evaluation.',
     ['inputs', 'histories'], 'every state, flux and wave speed; one and two consecutive evaluations',
     'The unit test compares a single hand computed state.',
     ['src/rhs/numflux/hll.rs', 'src/rhs/numflux.rs'],
     [('HLL face flux', 'src/rhs/numflux/hll.rs calc_dflux_dxi'), ('flux difference', 'src/rhs/numflux.rs calc_dflux_xi_generic')],
     'S=8 cells, E=2 equations with free fluxes, states and wave speeds (emin < emax), cartesian mesh [1,2].')

prop('C08', 'Primitive and conservative variables convert into each other',
     'For both physics systems, at cell centres and both faces, converting primitive to conservative variables and back (and the other way round) returns the starting values, and either conversion '
     'yields momentum = density * velocity and, for the adiabatic system, energy = pressure/(gamma-1) + density*velocity^2/2. Conversion touches nothing else.',
     ['inputs'], 'every state with positive density (and pressure), every adiabatic index in (1,2), each location',
     'The proptests sample random states through the centre only, and one direction of the round trip.',
     ['src/state.rs', 'src/state/systems/euler1dadiabatic.rs', 'src/state/systems/euler1disot.rs'],
     [('conversions', 'src/state/systems/euler1dadiabatic.rs, euler1disot.rs'), ('location dispatch', 'src/state.rs get_vars_mut')],
     'S=3 cells, all rows symbolic, exact reals.')

prop('C09', 'Sound speed, wave speeds and physical flux follow the Euler equations',
     'For both physics systems and at each location: the adiabatic sound speed is the root of gamma*pressure/density (the isothermal one is left alone), the wave speeds are v-c, v (interior families), v+c, and '
     'the physical flux is that of the Euler equations. Each update changes exactly its own quantity, and copying states or initialising the faces copies the primitive, conservative and sound speed values of '
     'the addressed locations only.',
     ['inputs'], 'every state with positive density and pressure, every adiabatic index in (1,2), each location',
     'There is no test of fluxes or of the face variants; tests sample a few states.',
     ['src/state.rs', 'src/state/physics.rs', 'src/state/variables.rs', 'src/state/systems/euler1dadiabatic.rs', 'src/state/systems/euler1disot.rs'],
     [('derived variables', 'src/state/physics.rs'), ('physical flux', 'src/state/systems'), ('copies', 'src/state.rs assign, init_west_east')],
     'S=3 cells, all rows symbolic, exact reals.')

prop('C03', 'The Kurganov-Tadmor flux is built from limited linear face states',
     'The central upwind scheme reconstructs both face states of every cell with the configured slope limiter, evaluates fluxes and wave speeds there and returns the divergence of the '
     'central upwind face fluxes with one sided wave speeds max(0, .) and min(0, .) of the two states meeting at the face. The conservative variables at the cell centres stay as they were.',
     ['inputs', 'configurations'], 'every state and every coefficient of the flux and wave speed functions, each limiter',
     'The unit test compares one hand computed state with one limiter.',
     ['src/rhs/numflux/kt.rs', 'src/rhs/numflux/kt.rs', 'src/rhs/numflux.rs'],
     [('reconstruction', 'src/rhs/numflux/kt.rs reconstruct'), ('face flux', 'src/rhs/numflux/kt.rs calc_dflux_dxi')],
     'S=8 cells, E=2, affine flux and wave speed functions with free coefficients, cartesian mesh.')

prop('C04', 'Slope limiters give bounded slopes that never create new extrema',
     'Every limited slope vanishes at a local extremum, has the sign of the differences otherwise, obeys the documented formula and keeps the reconstructed face value within the bounds of '
     'the limiter (min of the one sided differences for MinMod, and so on). It is a finite number for every finite input, including equal neighbours.',
     ['inputs', 'configurations'], 'every pair of finite differences, every limiter, every Monocent parameter in the accepted range',
     'The tests compare a few triples of numbers per limiter.',
     ['src/rhs/numflux/kt.rs'], [('limiters', 'src/rhs/numflux/kt.rs')],
     'all states of three neighbouring cells, exact reals; finiteness at degenerate differences included.')

prop('C05', 'Fluxes are conservative',
     'For both flux schemes the flux leaving one cell through a face is exactly the flux entering the neighbour: the volume weighted sum of the right-hand side over all interior cells depends '
     'only on the states next to the two outer faces.',
     ['inputs', 'configurations'], 'every state, flux and wave speed, both schemes',
     'No test looks at conservation.',
     ['src/rhs/numflux.rs', 'src/rhs/numflux/hll.rs', 'src/rhs/numflux/kt.rs'], [('flux difference', 'src/rhs/numflux.rs calc_dflux_xi_generic')],
     'S=8 cells, E=2, cartesian mesh, exact reals.')

prop('C06', 'A uniform flow stays uniform',
     'For both physics systems, both flux schemes and every limiter, the right-hand side of a spatially constant state vanishes in every interior cell on a cartesian mesh.',
     ['inputs', 'configurations'], 'every constant state with positive density and pressure, each scheme and limiter',
     'No test runs a uniform flow, and rounding hides small slopes.',
     ['src/rhs/numflux/hll.rs', 'src/rhs/numflux/kt.rs', 'src/state/systems/euler1dadiabatic.rs', 'src/state/systems/euler1disot.rs'],
     [('flux schemes', 'src/rhs/numflux')],
     'S=6 cells, density, velocity, pressure, sound speed and adiabatic index symbolic, exact reals.')

prop('C07', 'The CFL step width never lets a wave cross more than the allowed fraction',
     'With the CFL criterion the step width is the CFL parameter divided by the largest wave crossing rate of all cells (largest absolute wave speed, left or right going, over the cell width), '
     'and without automated step control the step taken never exceeds it, for every velocity including supersonic flow in either direction.',
     ['inputs', 'configurations'], 'every state with positive density, pressure, sound speed, both physics systems',
     'Tests use subsonic or right going flow only and look at a single cell.',
     ['src/time/timestep.rs', 'src/state/physics.rs', 'src/rhs/numflux.rs'],
     [('CFL step', 'src/time/timestep.rs, src/state/physics.rs calc_dt_cfl')],
     'S=6 cells of a cartesian mesh, both systems, every state, exact reals.')

prop('C10', 'Boundary conditions fill exactly the ghost cells as documented',
     'Every boundary mode sets the two ghost cells of each edge from the adjacent interior cells as documented, per edge and equation; equations without a configured '
     'mode keep their ghost values. Interior cells are never written, and the conservative ghost values match.',
     ['inputs', 'configurations'], 'every state, every boundary mode on each edge for every equation',
     'The tests check selected modes with one state.',
     ['src/boundaryconditions.rs', 'src/boundaryconditions/custom.rs'],
     [('modes', 'src/boundaryconditions/custom.rs')],
     'S=6 cells, both systems, each mode on each edge and equation, all values symbolic, exact reals.')

prop('C11', 'The mesh tiles the domain and its geometry is consistent',
     'The faces of neighbouring cells coincide, the interior cells tile exactly the configured interval with two ghost cells beyond each edge, centres lie between their faces, '
     'and widths, areas, volumes, their inverses and the geometric coefficients are those of the coordinate map.',
     ['inputs', 'configurations'], 'every interval of either sign, several numbers of cells',
     'Tests compare a few meshes with fixed bounds.',
     ['src/mesh.rs'], [('mesh construction', 'src/mesh.rs')],
     'S=6, 9 and 14 cells, bounds symbolic, exact reals.')

prop('C12', 'Step widths respect the configured minimum, maximum and next output time',
     'A step is never longer than the configured maximum nor than the time to the next output. A step width below the configured '
     'minimum ends the run with an error instead of being used.',
     ['inputs'], 'every step width, limits, current time and next output time',
     'The tests do not call the step width limits with values on both sides.',
     ['src/time/timestep.rs', 'src/time.rs'], [('limits', 'src/time/timestep.rs')],
     'S=6 cells; exact reals, capping also bit-precise in IEEE double arithmetic.')

prop('C13', 'Output is written once, on time, at every scheduled instant',
     'A run writes the initial state and then one output exactly at every one of the evenly spaced output times, the last one at the end time, in increasing order, none twice, and '
     'no step goes past a scheduled time. Then it ends, having never advanced beyond the end time.',
     ['histories', 'inputs'], 'every start and end time, every number of outputs, every sequence of time step widths',
     'The tests run two fixed shock tubes to the end and do not read the output.',
     ['src/solver.rs', 'src/lib.rs', 'src/time/timestep.rs', 'src/writer.rs'],
     [('run loop', 'src/lib.rs run_corries'), ('schedule', 'src/solver.rs, src/time/timestep.rs cap_dt')],
     'real run loop with a real time integrator, 1 to 3 outputs, up to 3 freely chosen step widths followed by unlimited ones, all times symbolic, exact reals.')

prop('C14', 'A failing run stops, keeps the state at the failure and returns an error',
     'When a step fails, its width falls below the minimum, or the number of iterations reaches its limit, the run returns an error, takes no further step, and its last output row, marked as an error, shows '
     'the time and iteration reached. A run without such a cause never ends with an error and writes no such row.',
     ['histories', 'faults', 'inputs'], 'every sequence of step widths, every failing evaluation, every iteration limit',
     'No test makes a run fail.',
     ['src/lib.rs', 'src/solver.rs', 'src/writer.rs', 'src/time/timestep.rs'],
     [('error output', 'src/lib.rs run_corries'), ('iteration limit', 'src/solver.rs')],
     'real run loop, 1 to 2 outputs, up to 2 free step widths, failure at evaluation 1 to 3, invalid results of step 1 to 2, iteration limits 1 to 3; times symbolic, exact reals.')

prop('C15', 'Only configurations within the documented ranges are accepted',
     'A simulation is set up exactly if every numeric parameter lies in its documented range (NaN lies in none) and every output is complete (file outputs name a folder and a file, scalar outputs contain no vector data); otherwise an '
     'error is returned, the initial condition is not applied and no file is created, changed or removed.',
     ['configurations', 'inputs'], 'every value of each numeric parameter, including infinities, NaN and subnormals, all at the same time',
     'The tests try one wrong value per parameter and not their combinations, NaN or infinities, and never look at the files.',
     ['src/config.rs', 'src/config/numericsconfig.rs', 'src/config/numericsconfig/timeintegrationconfig.rs', 'src/config/numericsconfig/numfluxconfig.rs',
      'src/config/outputconfig.rs', 'src/config/meshconfig.rs', 'src/config/physicsconfig.rs', 'src/lib.rs'],
     [('validation', 'src/config.rs validate'), ('set up', 'src/lib.rs init_corries')],
     'bit-precise in IEEE double arithmetic: ten numeric fields at once, the mesh interval alone; flux schemes, limiters, streams, names and data enumerated.')

prop('C17', 'Automated step control accepts only steps within the error tolerance',
     'With an embedded scheme and step control on, a step width is accepted only if the scaled difference of its two solutions is below one in every interior cell; a rejected one is repeated with a width '
     'between a quarter of it and itself, or ends the run with an error below the minimum. The step finally taken is the scheme applied with a width of at most four times the accepted trial, within '
     'the configured maximum and the next output time.',
     ['inputs', 'histories'], 'every error estimate and step width, several trials per step, each embedded scheme',
     'No test triggers a rejected step.',
     ['src/time/rkf.rs', 'src/time/rkf/butchertableau.rs', 'src/time/timestep.rs'],
     [('control loop', 'src/time/rkf.rs next_solution'), ('error estimate', 'src/time/rkf.rs calc_rkf_solution')],
     'Heun2, RKF12 (thorough: all embedded schemes), up to 2 (thorough: 3) trials with one free cell, followed by a trial without error; exact reals, exponential and logarithm by their order properties.')

prop('C18', 'Unit conversion is consistent',
     'Lengths, masses and times convert between SI and CGS by factors of 100, 1000 and 1 in the direction asked for, and conversion into the own unit system changes nothing.',
     ['inputs', 'configurations'], 'every value, both unit systems',
     'There is no test of conversions.',
     ['src/units.rs'], [('conversion', 'src/units.rs')],
     'every value, exact reals.')

prop('C22', 'A simulation starts from exactly the given initial state',
     'After set up the interior cells hold the primitive values given by the initial condition, ghost cells those of the boundary conditions, and conservative variables, sound speed, wave speeds and '
     'both face states agree with them everywhere; the clock shows the configured start time with no step taken.',
     ['inputs', 'configurations'], 'every initial state, both physics systems, built-in and user defined initial conditions',
     'Tests look at the built-in initial conditions only.',
     ['src/lib.rs', 'src/initfuncs.rs', 'src/state.rs', 'src/solver.rs'],
     [('set up', 'src/lib.rs init_corries'), ('built-in initial conditions', 'src/initfuncs.rs')],
     'S=6 and 7 cells, both systems, three sets of boundary conditions, exact reals.')

prop('C16', 'Invalid states are detected, valid ones accepted',
     'A time step whose result has a non finite value, or a density (or, for the adiabatic system, pressure) that is not positive, fails with an error; every other result is accepted. '
     'Hence no run continues from, or outputs as regular, an unphysical state.',
     ['inputs'], 'every result of a step, including infinities and NaN',
     'Tests cannot enumerate values, and a missing comparison for one quantity shows only for states with exactly that defect.',
     ['src/state.rs', 'src/state/systems/euler1dadiabatic.rs', 'src/state/systems/euler1disot.rs', 'src/solver.rs'],
     [('validation', 'src/state.rs validate'), ('error path', 'src/solver.rs')],
     'rejection bit-precise in IEEE double arithmetic with every 64 bit value, S=6 cells, both systems; acceptance, and results that differ from all stages (RK1, RK2), over exact reals.')

prop('C23', 'After each step the state is consistent',
     'After a completed time step primitive and conservative variables, sound speed, wave speeds and ghost cells all describe the same new state: nothing is left over from the previous step or an '
     'intermediate stage.',
     ['inputs', 'histories'], 'every bounded initial state and right-hand side, several schemes and boundary conditions',
     'No test compares the derived quantities after a step.',
     ['src/time/rkf.rs', 'src/rhs.rs', 'src/solver.rs', 'src/state.rs'],
     [('stages and update', 'src/time/rkf.rs'), ('derived quantities', 'src/rhs.rs update_physics')],
     'S=6 cells, both systems, schemes RK1 and SSPRK3, two sets of boundary conditions, exact reals.')

prop('C19', 'Outputs appear under the configured names, and other files stay as they are',
     'A run creates exactly the configured files: one table per scalar output, one numbered file per vector output and time (padded so that they sort), and metadata where asked for, creating missing folders. '
     'Files of earlier runs are replaced, not mixed with new rows; a folder is emptied only if asked for, and no other file changes.',
     ['configurations', 'histories', 'inputs'], 'every content, combinations of outputs, folders with files of earlier runs, whole runs with and without a failure',
     'Tests run into fresh folders once and do not list or read files.',
     ['src/writer.rs', 'src/writer/output.rs', 'src/config.rs', 'src/components.rs'],
     [('file life cycle', 'src/writer/output.rs'), ('banner and metadata', 'src/config.rs init_corries')],
     '1 to 2 outputs, 1 to 3 times, numbering for up to 1000 outputs, earlier files present or not; written values and end time symbolic.')

prop('C20', 'Output rows show exactly the current values, under the right names',
     'Each output shows a header naming its columns in the configured order (tables once, vector outputs every time), then one row (tables) or one row per cell, ghost cells included iff configured, '
     'and every number in it is the current value of that quantity in that cell, printed with the configured precision and delimiter.',
     ['inputs', 'configurations'], 'every value of every quantity; formats, streams, conversions, precisions, data names and their order',
     'Tests do not read outputs.',
     ['src/writer.rs', 'src/writer/data.rs', 'src/writer/output.rs', 'src/mesh.rs', 'src/state.rs', 'src/state/variables.rs', 'src/time/timestep.rs'],
     [('formatting', 'src/writer/output.rs'), ('collection', 'src/writer.rs, src/mesh.rs, src/state/variables.rs, src/time/timestep.rs')],
     '6 and 7 cells, up to 3 times, every data name, precisions 0 to 17; all values symbolic, exact reals.')

prop('C21', 'Parallel execution does not change results or mix outputs',
     'Whatever the order or overlap in which parallel work is executed, numerical fluxes and all written files are the same, outputs sharing the standard output appear one after the other, each whole, '
     'and no two parts running at the same time use the same memory or file.',
     ['schedules', 'inputs'], 'every order of the halves of each parallel section, and their overlap, over every content',
     'A test sees one schedule, and small tables rarely collide.',
     ['src/writer.rs', 'src/writer/output.rs', 'src/rhs/numflux/hll.rs', 'src/rhs/numflux/kt.rs'],
     [('parallel outputs', 'src/writer.rs'), ('parallel loops', 'src/rhs/numflux')],
     '2 and 3 outputs, written twice; fluxes over 8 cells; both orders of each split; overlap by conflict analysis of the accesses on each path.')

prop('C24', 'Metadata show exactly the configuration of the run',
     'Metadata are written by exactly the outputs that ask for them, to their metadata file or the standard output, as a JSON text in which every numeric parameter, mode, boundary condition and output setting '
     'is the one used by the run.',
     ['inputs', 'configurations'], 'every value of the numeric parameters at the same time; schemes, limiters and outputs',
     'Tests never read metadata.',
     ['src/writer.rs', 'src/writer/output.rs', 'src/config.rs'],
     [('metadata', 'src/writer/output.rs write_metadata')],
     'ten numeric parameters symbolic, exact reals; schemes, limiters, outputs enumerated.')

prop('C25', 'A failing file system operation is reported, an interrupted one repeated',
     'If opening, creating, writing or removing fails at any point of a run, the run ends with an error and not with a panic or silently; files written so far hold the beginning of the correct content and '
     'unrelated files are untouched. Incomplete or interrupted writes are continued, so that nothing is lost or doubled.',
     ['faults', 'inputs'], 'every single operation of a run failing, being cut short or interrupted',
     'Tests have no way to make a particular operation fail.',
     ['src/writer.rs', 'src/writer/output.rs', 'src/components.rs', 'src/config.rs'],
     [('error propagation', 'src/writer/output.rs, src/components.rs run_corries')],
     'whole runs with 1 output time after the initial one, 1 to 2 outputs, at most one failing operation whose number is symbolic.')

prop('C26', 'A first order step keeps densities and pressures positive',
     'With the HLL scheme and single explicit steps, a state with positive densities (and pressures) in all cells has positive densities and pressures in all inner cells after a step chosen by the program, '
     'and the step succeeds. This holds for every CFL parameter below 1 (below or equal 1/2 for pressures), however strong the jumps between cells.',
     ['inputs', 'configurations'], 'every state, next output time, CFL parameter and adiabatic index',
     'Needs strong jumps together with fast flow near the stability limit; tests run two mild shock tubes with a small CFL parameter.',
     ['src/rhs/numflux/hll.rs', 'src/state/physics.rs', 'src/state/systems', 'src/time/rkf.rs', 'src/time/timestep.rs'],
     [('flux', 'src/rhs/numflux/hll.rs'), ('step width', 'src/state/physics.rs calc_dt_cfl, src/time/timestep.rs')],
     'S=7, both physics systems, RK1, no gradients boundaries, Cartesian mesh; velocities and sound speeds up to 1000; exact reals.')
