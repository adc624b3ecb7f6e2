import json
P=[]
LW="dorado/lagrangian_walker.py"; PT="dorado/particle_track.py"; RT="dorado/routines.py"; PR="dorado/parallel_routing.py"; SP="dorado/spatial.py"; LG="dorado/logging_config.py"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","Particle histories are connected paths that never leave the grid",
 "Every recorded particle history is a path on the raster: each recorded position is a cell of the grid (row and column indices at or above 0 and below the grid size), and any two consecutive recorded positions are different cells that share a side or a corner. This holds for every seed cell, including cells on the raster border, for every flow field and cell-type map, for the random walk and for steepest descent, and whether particles are moved step by step or to a target time.",
 ["inputs","histories","configurations"],"all flow fields, cell-type maps (inferred or supplied, with or without edge cells), seed cells, walk modes and iteration counts",
 "The tests route one particle a few steps in two fixed flow fields, from an interior cell; no test looks at border cells, supplied cell types or pits.",
 [LW,PT],[("D8 move and border weights set to zero",LW+": calculate_new_ind, clear_borders, random_pick, steep_descent"),("only a changed position is appended",PT+": Particles.run_iteration")],
 [("walk_data","per-particle lists of recorded rows, columns and times",PT)],["Particles.run_iteration return value","Particles.walk_data"])
p("C02","Particles stop for good at the domain edge, and only stall in dead ends",
 "A particle whose own cell or any of its eight neighbours is an edge cell (type -1) never moves again: later iterations, with or without a target time, record nothing more for it. A particle that is not next to an edge moves on every step whenever some neighbouring cell is a possible destination under the routing weights; it can only stay in place in a dead end where its own cell is the deepest (or one of the equally deepest) of the neighbourhood.",
 ["inputs","histories","configurations"],"all flow fields, edge layouts (default frame or supplied interior edges), seed cells and iteration sequences",
 "One test checks one particle's length after hitting one edge of one field; nothing checks that others keep moving or that nothing is appended later by mixed step and target-time calls.",
 [LW,PT],[("edge check cancels the step",LW+": check_for_boundary"),("edge check before a target-time run",PT+": Particles.run_iteration")],
 [("cell_type","2 land, 1 channel, 0 ocean, -1 edge",PT)],["Particles.walk_data"])
p("C03","Particles that start in water never step onto dry or land cells",
 "A step that starts from a wet cell (deeper than the dry depth and not land) never ends in a cell that is dry (depth at or below the dry depth) or marked as land (type 2), as long as the cell has at least one wet, non-land downstream neighbour; without one, the step ends in one of the deepest cells of the 3x3 neighbourhood (possibly the current cell). With cell types left to be inferred from depth this means a particle seeded in water is never found on land, in the random walk and in steepest descent alike.",
 ["inputs","histories","configurations"],"all depth, stage and discharge fields with arbitrary dry patches, islands, pits and thresholds, every wet seed cell",
 "Unit tests check weights on one 5x5 grid with uniform fields; no test walks particles through mixed wet and dry terrain or in steepest-descent pits.",
 [LW],[("weights of dry and land cells set to zero; deepest-cell fallback",LW+": make_weight"),("selection from the weights",LW+": random_pick, steep_descent")],
 [("dry_depth","minimum depth of a wet cell",PT)],["Particles.walk_data","Particles.weight"])
p("C04","Routing weights follow the documented slope, inertia and depth law",
 "For every interior cell, the probability of stepping to each of the eight neighbours is proportional to depth^theta times (gamma * slope share + (1-gamma) * discharge share), where the slope share is the positive water-surface drop per unit distance and the discharge share is the positive projection of the cell's discharge on the direction per unit distance, each restricted to wet non-land neighbours and normalised to sum to one over them (zero if none is positive). If no neighbour gets a positive weight, the candidates are exactly the deepest cells of the 3x3 neighbourhood, equally likely; cells on the raster border have no destination. A neighbour is no possible destination if its water-surface level, or that of the cell itself, is missing.",
 ["inputs","configurations"],"all stage, depth and discharge fields, theta, gamma, dry depth and cell types, including missing (NaN) values",
 "The weight tests assert a few entries on uniform 5x5 grids with NaN distances (so only the dead-end branch runs); the general formula is never compared with anything.",
 [LW],[("vectorised weight computation",LW+": make_weight, big_sliding_window, tile_domain_array, tile_local_array, clear_borders")],
 [("weight","(L,W,9) routing weights",LW)],["Particles.weight","frequencies of Particles.run_iteration moves"])
p("C05","Each step is drawn according to the weights; steepest descent takes the best",
 "In the random walk, the destinations of particles leaving a cell occur with frequencies equal to that cell's normalised routing weights, at every visit and however often the cell has been visited before; a cell with zero weight is never chosen, and the moves of different particles and at different steps are drawn independently. In steepest descent the destination is always a neighbour carrying the largest weight among the eight neighbours, ties being broken at random with equal chances.",
 ["inputs","histories"],"all weight patterns, cells, visit counts and random states",
 "One test draws from a one-hot vector and one takes a fixed-seed draw; frequencies, ties and repeated visits are not examined.",
 [LW],[("inverse-CDF draw",LW+": random_pick, get_weight"),("maximum-weight draw",LW+": steep_descent")],
 (),["first-step and per-visit move counts from Particles.run_iteration"])
p("C06","Routing is invariant under symmetries and the documented limits of gamma, theta",
 "Mirroring or rotating the whole domain (with the flow vectors transformed accordingly) mirrors or rotates the routing probabilities; adding a constant to stage and bed, scaling all water-surface relief, scaling the discharge field by a positive constant, or changing the cell size leaves them unchanged. With gamma = 1 they do not depend on discharge, with gamma = 0 they do not depend on the water surface, and with theta = 0 they do not depend on how deep wet cells are (dead ends excepted).",
 ["inputs","configurations"],"all domains, their eight symmetries, datum shifts, scalings and parameter limits",
 "No test compares two related domains.",
 [LW,PT],[("weights",LW+": make_weight"),("D8 direction tables",PT+": Particles.__init__")],(),["Particles.weight"])
p("C07","Travel time of every step obeys the documented velocity law",
 "The time added by a recorded step equals 1/2 * step length * max(0, cos of the angle between the step and the flow at the origin cell) * (1/speed at origin + 1/speed at destination) * (1 + d), with step length dx or sqrt(2)*dx, speeds floored at 1e-8, and d = 0 when the diffusion coefficient is 0, otherwise an independent draw uniform on plus or minus half the diffusion coefficient. Hence travel times are finite and, for diffusion coefficients up to 2, never decrease along a history, and they start at the seed time.",
 ["inputs","histories","configurations"],"all velocity fields (including stagnant cells), step directions, cell sizes and diffusion coefficients",
 "One unit test evaluates one direction with hand-set velocities and no diffusion.",
 [LW,PT],[("travel time of a step",LW+": calc_travel_times, step_update"),("velocity magnitude and angle fields",PT+": Particles.__init__")],
 [("velocity, velocity_angle","speed and direction fields",PT)],["travel_times in walk_data"])
p("C08","Target-time runs stop each particle as close to the target as its steps allow",
 "With a target time, a particle takes a further step exactly as long as adding one more increment equal to its last one (0.1 s if it has none, and not less than 0.1 s) would leave it no farther from the target; so a particle already past the target does not move, and a particle stops early only when it stands still, is at a domain edge, or has taken the permitted maximum number of steps in this call. Every particle that was stopped by the step limit, and no other, is named in the warning (when messages are enabled).",
 ["inputs","histories","configurations"],"all flow fields, targets (also in the past), step limits, numbers of particles and sequences of targets",
 "Two tests run one particle to one target; the stopping rule, several targets in a row, the step limit and its warning are not tested.",
 [PT],[("stopping loop and limit",PT+": Particles.run_iteration")],(),["travel_times in walk_data","warnings"])
p("C09","Histories only grow and stay aligned under any sequence of operations",
 "Under any sequence of seeding, stepping, target-time runs, clearing and reloading of earlier walk data, the rows, columns, times and every tracked variable of a particle always have the same number of entries, nothing already recorded is ever changed, removed or reordered, and particles keep their identity (loaded ones first, then existing, then new). A single un-targeted iteration adds at most one entry per particle, clearing leaves no particles, and routing without particles is refused with a ValueError.",
 ["histories","inputs"],"all operation sequences over a particle object, including reloading walk data that lacks some tracked variables",
 "Tests call at most two operations in a row on a 3x3 grid where no particle can move.",
 [PT],[("merge of old and new walk data",PT+": Particles.generate_particles"),("append after a step",PT+": Particles.run_iteration")],
 [("walk_data","all histories",PT),("Np_tracer","particle count",PT)],["Particles.walk_data","run_iteration return value"])
p("C10","Tracked variables report the grid value at every recorded position",
 "For every tracked variable (depth, stage, discharge and velocity components) the recorded series equals the particle object's grid value at each position recorded by that object, and the region flag is 1 exactly where the region grid is 1 and 0 elsewhere; the flag is tracked automatically whenever a region grid is supplied. Unknown variable names and region grids of the wrong shape are refused with a ValueError, and tracking does not alter which steps particles take.",
 ["inputs","histories","configurations"],"all subsets of variables, region grids (any dtype), fields with NaN, walk modes and operation sequences",
 "Tests only check that the keys exist on a grid where particles cannot move.",
 [PT,LW],[("initial sampling",PT+": Particles.generate_particles"),("sampling after each step",LW+": particle_stepper")],
 [("available_particle_vars","name to grid",PT)],["walk_data[variable]"])
p("C11","Seeding creates exactly the requested particles at the requested places",
 "Seeding adds exactly the requested number of particles, each with a one-entry history at the given seed time. With the 'exact' method particle k sits at the (k modulo n)-th listed location, so locations are filled evenly in the listed order; with the 'random' method row and column are drawn independently and uniformly from the two lists (repeated entries count repeatedly). Multi-dimensional seed arrays are flattened in row order, and inputs of the wrong type or an unknown method are refused with TypeError or ValueError and leave existing particles untouched.",
 ["inputs","histories"],"all particle counts, seed lists (any length, repeats, arrays), seed times, methods and invalid inputs",
 "Tests use one to five particles on single-cell lists and only check counts.",
 [PT,LW],[("input coercion",PT+": gen_input_check"),("placement",PT+": Particles.generate_particles; "+LW+": random_pick_seed")],(),["Particles.walk_data"])
p("C12","Saving, reloading and resuming a simulation changes nothing",
 "The walk data can at any point be written as JSON and read back unchanged, and a new particle object built from the same parameters and seeded with that data continues exactly as the uninterrupted simulation does under the same random state, with or without a target time and with tracked variables. Splitting a run into parts therefore does not change the result.",
 ["crash_points","histories","inputs"],"all interruption points in all step/target-time sequences, fields of any float or integer dtype and tracked variables",
 "One test reloads data on a grid where particles cannot move and looks at the first entry only.",
 [PT,RT],[("previous_walk_data merge",PT+": Particles.generate_particles"),("plain-number walk data",LW+": particle_stepper")],(),["json.dumps of walk_data","run_iteration results before and after resume"])
p("C13","Particles do not influence each other",
 "A particle's history depends only on its own seed, the flow field and its own random draws: with steepest descent, no diffusion and no ties, routing a group gives each particle exactly the history it has when routed alone, in any order of seeding, and routing to a target time gives a prefix or extension of the step-by-step path. Adding particles later, or a particle stopping at an edge, never changes another particle's history.",
 ["inputs","histories"],"all groups, seed orders, stops, flow fields and mixtures of step and target-time calls",
 "Every test that inspects positions uses one particle.",
 [PT,LW],[("per-particle lists and list comprehensions in the stepper",LW+": particle_stepper; "+PT+": Particles.run_iteration")],(),["walk_data of group and single runs"])
p("C14","Parallel routing returns complete, aligned, independent particles",
 "Parallel routing on n cores returns exactly n times the requested number of particles (beyond those the object already held), each a valid history of at most the requested number of iterations seeded from the given lists, with every tracked variable present and aligned; where routing is deterministic each equals the serial result. The particles computed by different workers are independent draws, not copies of each other.",
 ["inputs","configurations","schedules"],"all core counts, particle counts, iteration counts, seeds and domains, whatever worker runs which share",
 "The single test uses uniform 5x5 data, two workers and checks counts; copies of one worker's result would pass.",
 [PR],[("per-worker run",PR+": run_iter"),("merge of results",PR+": combine_result, parallel_routing")],(),["parallel_routing return value"])
p("C15","Equivalent descriptions of the flow field give the same routing",
 "Giving any two of depth, stage and bed elevation, or all three, and giving discharge or the equivalent velocities, leads to the same depth, stage, discharge, speed and routing (missing depths count as dry and negative computed depths as zero; discharge has priority when both are given). For ordinary models x points to increasing columns and y to decreasing rows, for DeltaRCM x points down the rows and y along the columns; describing one field in either convention gives the same routing and travel times.",
 ["inputs","configurations"],"all fields (with NaN and negative depths), the combinations of given arrays, both conventions",
 "Tests check single combinations with all-ones arrays.",
 [PT],[("derivation of depth, stage, discharge and velocity",PT+": Particles.__init__")],(),["Particles.depth, stage, qx, qy, u, v, velocity, weight","walk_data"])
p("C16","Incomplete or inconsistent domain descriptions are refused",
 "A particle object can be built exactly when the cell size, enough of depth/stage/bed to know both depth and stage, and a complete pair of discharge or velocity components are given; every other combination is refused with a ValueError, never accepted silently or with another error. Omitted optional parameters take their documented defaults (theta 1, gamma 0.05, diffusion 0.2 or 0 for steepest descent, dry depth 0.1, land inferred where depth is below the dry depth inside a frame of edge cells, random walk), and a negative diffusion coefficient becomes zero.",
 ["configurations","inputs"],"all subsets of required and optional parameters, both conventions, malformed arrays",
 "Tests cover about ten of the several hundred combinations.",
 [PT],[("parameter checks and defaults",PT+": Particles.__init__")],(),["Particles constructor","Particles attributes"])
p("C17","Parameter objects can be reused without changing the outcome",
 "Building a particle object from a parameter object does not change what a later particle object built from the same parameter object does: repeated builds, also after changing or removing single settings in between, route and time particles exactly as a build from a fresh copy of the same settings. In particular velocities and other arrays given by the user and the list of tracked variables are left as the user set them.",
 ["histories","configurations","inputs"],"all parameter sets and sequences of builds with edits between them",
 "Tests share module-level parameter objects between cases and never compare a second build with a first.",
 [PT],[("copying or re-deriving inputs",PT+": Particles.__init__")],(),["Particles.weight, velocity, tracked variables of first and later builds"])
p("C18","Simulations are reproducible from the random seed",
 "Two runs with the same parameters, operations and NumPy global random seed produce identical walk data, and no source of randomness other than that generator is used. Reading results, analysing them, building further objects or plotting (other than travel paths, which are coloured at random) does not draw from it, so it does not alter a later simulation.",
 ["inputs","histories"],"all seeds, parameters and operation sequences",
 "Fixed-seed tests compare a few steps on one field.",
 [LW,PT],[("use of the global NumPy generator",LW+": random_pick, random_pick_seed, steep_descent, calc_travel_times")],(),["walk_data of repeated runs"])
p("C19","Exposure time is the time each particle spent inside the region",
 "A particle's exposure time is the sum over its steps of the step's duration times the fraction of its two end cells that lie in the region (full, half or none), counting every excursion, and is reported in particle order. Hence it is zero without contact, never exceeds the elapsed time, grows with the region, and the exposures to a region and to its complement add up to the elapsed time; particles still inside at their last step are reported.",
 ["inputs"],"all walk histories (any lengths, re-entries, repeated cells) and all binary regions",
 "Three hand-made one-particle walks.",
 [PT],[("accumulation over steps",PT+": exposure_time")],(),["exposure_time return value","log message"])
p("C20","Nourishment area is the normalised visit count",
 "Without smoothing, each visited cell's value is its number of recorded particle positions, truncated at the given percentile of the raster and divided by the largest value, and unvisited cells are NaN; with smoothing the truncated counts are first passed through a Gaussian filter of the given sigma, the smallest values become NaN and the rest is divided by the maximum. Values lie in [0, 1], the maximum is 1, and the result does not depend on particle order or travel times.",
 ["inputs"],"all walk histories, raster sizes, sigma and percentile settings",
 "Two 3x3 examples with a diagonal path.",
 [PT],[("counting, clipping, filtering, normalising",PT+": nourishment_area")],(),["nourishment_area return value"])
p("C21","Nourishment time is the mean residence time per visit",
 "Without smoothing, a cell's value is the mean, over all recorded visits that are neither the first nor the last entry of a history, of half the time between the previous and the next entry, truncated at the given percentile of the raster; cells without such a visit or with zero mean are NaN. With smoothing the truncated means are passed through a Gaussian filter of the given sigma and the smallest values become NaN; the result does not depend on particle order and scales with the time unit.",
 ["inputs"],"all walk histories, raster sizes, sigma and percentile settings",
 "Two examples with one particle on a diagonal.",
 [PT],[("time accumulation",PT+": nourishment_time")],(),["nourishment_time return value"])
p("C22","Index and geographic coordinates convert back and forth consistently",
 "Converting cell indices to coordinates and back returns the same indices, and converting coordinates to indices and back returns a point at most half a cell away in each direction; rows decrease with northing, columns increase with easting, and moving origin and points together changes nothing. The conversion of walk data adds one coordinate pair per recorded position and leaves everything else as it was; converting again, with the same or another origin, gives what a first conversion gives.",
 ["inputs"],"all origins, raster sizes, cell sizes (metres or degrees), points and walks",
 "Two examples with unit cells and integer coordinates.",
 [PT],[("coordinate transforms",PT+": coord2ind, ind2coord")],(),["coord2ind and ind2coord return values"])
p("C23","Gridding unstructured data interpolates the nearest points onto the right raster",
 "The raster spans the extent of the points with the given cell size, first row at the highest y, and each cell holds the value of a nearest point (one neighbour) or the inverse-distance-weighted mean of its k nearest points, hence within their range and exact at a data point. Cells outside a boundary polygon are NaN and cropping removes all-NaN rows and columns at the borders only; the returned function applied to other data on the same points gives what a fresh call gives, and a call whose data and point lists differ in length is refused with a ValueError.",
 ["inputs","configurations"],"all point sets, values, cell sizes, neighbour counts, boundary polygons and crop settings",
 "Three points and one polygon with fixed expected rasters.",
 [PT],[("nearest-neighbour and inverse-distance interpolation",PT+": unstruct2grid")],(),["unstruct2grid return values"])
p("C24","Flux-proportional seeding distributes exactly the requested particles",
 "For a series with one discharge value per seeding step (flat or as a single column, of either sign), the counts are non-negative integers, one per step, that sum to exactly the requested total and each differ by less than one from the proportional share; a step with more discharge never gets fewer particles than one with less, and a step without discharge gets none. Series that are too short or carry no discharge are refused with a ValueError.",
 ["inputs"],"all discharge series, totals and step counts",
 "One series whose shares are whole numbers, so the remainder logic never runs.",
 [PT],[("largest-remainder rounding",PT+": flux_proportional_seeding")],(),["flux_proportional_seeding return value"])
p("C25","State queries return the recorded entry that was asked for",
 "Querying by iteration returns for every particle its recorded row, column, time and every additional field at that index (negative indices count from the end), or its last entry if the history is shorter; querying by time returns, for every particle, one recorded entry whose time is nearest to the requested time, all fields from that same entry. Particle order is kept, additional fields are returned exactly when the walk data has any, nothing is modified, and it is reported how many particles have no such iteration and which ones do not get as far as the requested time.",
 ["inputs"],"all walk data (ragged histories, extra fields), iterations and times",
 "These functions are only called indirectly through plotting in one test.",
 [RT],[("slicing",RT+": get_state, get_time_state")],(),["get_state and get_time_state return values"])
p("C26","Spatial exposure analysis assigns every particle to its start chunk once",
 "Both spatial analyses cut the domain into blocks of the given cell count per side (left-over rows and columns belong to the last block) and return one entry per block in row order: NaN for a block without region cells, otherwise the exposure times, in particle order, of exactly the particles that started in that block. System-wide analysis measures exposure to the whole region, localized analysis to the region's part inside the block; a particle is never counted in two blocks.",
 ["inputs","configurations"],"all walks, region masks, grid shapes and block sizes (dividing the grid or not)",
 "One 6x2 grid; only shape and sign of a derived statistic are checked.",
 [SP],[("block loop and start filter",SP+": systemwide, localized, _find_common_indices_info")],(),["systemwide and localized return values"])
p("C27","Exposure-time percentile maps are ordered, in range and robustly smoothed",
 "Before smoothing, each block with at least five distinct non-zero exposure times gets its 50th, 75th and 90th percentile of the smoothed distribution of the non-zero times, in the requested time unit, so the three values are ordered and lie between the smallest and largest non-zero time; all other blocks are NaN, and blocks keep their place in the map. Smoothing keeps NaN blocks, replaces every other block by the mean of those values in its window that deviate from the window median by at most the threshold times the median absolute deviation (or by the median if that deviation is zero), the window reaching half its size (rounded down) to each side, and leaves a window of one unchanged.",
 ["inputs","configurations"],"all exposure lists, map shapes, time units, windows and thresholds",
 "One example; only shape and non-negativity are checked.",
 [SP],[("kernel density percentiles",SP+": compute_thresholds, percentile_from_cdf"),("outlier filter",SP+": median_absolute_deviation_filter")],(),["compute_thresholds and median_absolute_deviation_filter return values"])
p("C28","Steady-flow routines return and save exactly the simulated walk",
 "The steady-flow routines return the same walk data as calling the iteration directly the same number of times under the same random state, for any tracked variables, and save one numbered figure per iteration, showing the depth, the iteration and the particles' start and current positions (coloured by travel time in the time routine), and a JSON file that reads back equal to the returned data, in the folder asked for (created if needed, or the current directory). With saving turned off nothing is written.",
 ["inputs","configurations"],"all domains, tracked variables, iteration counts and folder situations",
 "A test only provokes a deprecation warning and swallows every exception.",
 [RT],[("iteration and saving loop",RT+": steady_plots, time_plots")],(),["return value","files in the output folder"])
p("C29","Unsteady routing uses each flow snapshot for its own time interval",
 "The unsteady routine moves the particles through the snapshots in file order, each snapshot being used up to the end of its own interval, exactly as manually building the domain for each snapshot and routing the carried-over particles to successive multiples of the time step; the result does not depend on whether snapshots are stored as csv, npy or npz. Asking for more steps than there are snapshots is reduced to the number available, unsupported formats are refused with a ValueError, each saved figure shows its snapshot's depth and time and the particles' start and current positions, and the final walk data are saved as JSON equal to the returned data.",
 ["inputs","configurations","histories"],"all snapshot series, time steps, step counts, formats and seeds",
 "No test calls it.",
 [RT],[("snapshot loop",RT+": unsteady_plots")],(),["return value","files in the output folder"])
p("C30","Exposure-time curves show the true fraction of particles exited",
 "The cumulative exposure-time curve at time t equals the share, of all particles, of those with non-zero exposure not exceeding t, leaving out those still inside at the end (exposure of 99% or more of the end time, i.e. the smallest final travel time, or the largest if uniform time steps are declared); it starts at 0, never decreases and is drawn in the requested time unit. Reported E50, E75 and E90 are the first times at which the curve reaches that level, and a level never reached is reported as such rather than failing; it works for walk data with and without additional fields, the saved exposure times equal the given ones, and the differential curve is non-negative and encloses the share of particles that have exited.",
 ["inputs","configurations"],"all walks, exposure lists, time units, bin counts and options",
 "One example of the threshold variant, checked only for not crashing; the main plotting function is never called.",
 [RT],[("CDF construction",RT+": plot_exposure_time, plot_exposure_time_thresholds")],(),["line data of the figures","log messages","exposure_times.txt"])
p("C31","Position plots draw the recorded positions",
 "Plotting a state draws exactly one marker per particle at (column, row) of the entry selected by iteration or by nearest time; drawing travel paths draws, for exactly the chosen particles in order, the recorded path thinned to the chosen interval, and saves it to the given file; the trailing-tail plots are saved at the chosen iteration interval while some particle is long enough, each tail joining recorded positions of one particle up to that iteration. Nourishment maps mark the first particle's start, and the percentile maps cover the extent of the raster. All of this works for walk data with and without additional fields.",
 ["inputs","configurations"],"all walks, particle selections, iterations, times and intervals",
 "No test calls these functions.",
 [RT],[("plotting",RT+": plot_state, draw_travel_path, snake_plots")],(),["artists on the axes","files written"])
p("C32","Analysis and plotting never modify their inputs",
 "Apart from the coordinate conversion, which only adds two fields, no analysis, query, gridding, spatial or plotting function changes the walk data, rasters, masks, exposure lists, discharge series or other lists and arrays it is given, and repeating a call gives the same result.",
 ["inputs","histories"],"all walks, masks and option values, all post-processing functions, in any order",
 "No test compares inputs before and after a call or calls twice.",
 [PT,RT,SP],[("copies before modification",PT+": exposure_time, nourishment_area, nourishment_time, flux_proportional_seeding, unstruct2grid; "+SP+"; "+RT)],(),["arguments after the call"])
p("C33","Logging set-up applies the requested level and destination without duplicates",
 "After any sequence of set-up calls, the package logs exactly the messages at or above the level requested last (in any letter case; the deprecated verbose flag counts as INFO or ERROR with a DeprecationWarning, and None as no call), each message is written once per destination, and a destination supplied by the user receives the messages. An invalid level is refused with a ValueError and changes nothing. The plotting routines follow the same rules and leave the level alone unless the deprecated flag is given.",
 ["histories","inputs"],"all sequences of set-up and verbose calls with valid and invalid levels and handlers",
 "Tests check three levels in one fixed order.",
 [LG],[("logger configuration",LG+": setup_logging, handle_verbose_deprecation")],[("logger","package logger 'dorado'",LG)],["messages received by handlers","warnings"])
p("C34","Animations show the numbered figures in order",
 "Animating a results folder writes one movie there, animation.mp4, replacing an earlier one. Its frames are the figures figs/output<n>.png from the first number up to, not including, the end number, each once, in increasing order and the right way up, and the figures themselves stay as they were.",
 ["inputs","configurations"],"all ranges of figure numbers, picture sizes and folders",
 "No test calls it: the movie writer needs ffmpeg.",
 [RT],[("movie",RT+": animate_plots")],(),["frames sent to the movie writer","files in the results folder"])
p("C35","Plots honour the requested colours",
 "The markers of a plotted state have the requested colour, the tail of every particle fades linearly from the recent colour at its newest segment to the oldest colour at its last one (in figures titled with their iteration), a legend of travel paths gives each followed particle the colour of its path, and a start marker has the seed colour. A nourishment map takes each cell's colour from the chosen colour map in proportion to its value between the smallest and the largest one, is nowhere more transparent than the given minimum (0 for areas and 0.3 for times if none is given) where it has a value, never shows a larger value more transparently than a smaller one and shows nothing where there is no value; a colour bar, drawn with nourishment times unless turned off, covers the same range.",
 ["inputs","configurations"],"all walks, values and colour options",
 "No test looks at what the plots show.",
 [RT],[("plotting",RT+": plot_state, snake_plots, draw_travel_path, show_nourishment_area, show_nourishment_time")],(),["colours of the artists in the figures"])
p("C36","Unusual and omitted settings are announced, usual ones are not",
 "Building a particle object warns about a negative diffusion coefficient and about one of 2 or more, and seeding warns about a seed time other than zero: once each, exactly in these cases, and never with verbose set to False. At INFO level every omitted optional setting (theta, gamma, diffusion, dry depth, cell types) is announced together with the default that is used, and settings that were given are not.",
 ["inputs","configurations"],"all combinations of given, omitted and unusual settings, verbosity and logging levels",
 "Tests look at single warnings only.",
 [PT],[("messages",PT+": Particles.__init__, Particles.generate_particles")],(),["warnings","messages of the package logger"])
with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in P:
    jsonschema.validate(r,S); assert r['statement'].count('. ')<=2,(r['id'],r['statement'].count('. '))
print(len(P))
