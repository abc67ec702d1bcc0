"""Writes properties.jsonl (the source of the property texts)."""
import json
import os

LW = "dorado/lagrangian_walker.py"
PT = "dorado/particle_track.py"
RT = "dorado/routines.py"
SP = "dorado/spatial.py"
EX = "dorado/example_data/define_params.py"
PR = "dorado/parallel_routing.py"
LG = "dorado/logging_config.py"
WD = {"name": "walk data", "meaning": "per particle lists of rows, columns, travel times and tracked values", "where": PT}


def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "state": state or [WD],
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe, "hook_needed": None}}


ALL = [
P("C01", "Particles stay inside the grid and move to adjacent cells only",
  "For particles seeded in any cell of the grid, outermost rows and columns included, every recorded position lies inside the grid. Two consecutive recorded positions of a particle are always different cells that touch (one of the eight neighbours).",
  ["inputs", "histories", "configurations"],
  "all domains (shape, depth, stage, flow, cell types with or without edge cells), all seed cells, all sequences of calls",
  "Tests move a few particles over two or three fixed grids from central cells; the guarantee is about every cell, every field and every random outcome.",
  [LW, PT], [("particle_stepper", LW), ("check_for_boundary", LW), ("run_iteration", PT)],
  ["returned walk data"]),
P("C02", "Particles that reach a domain edge stay there for good",
  "A particle in an edge cell, next to one (diagonals included), or on the outermost ring of the grid never moves again: no later call changes or extends its record, whatever the mode, while other particles keep moving. By default the outermost ring is the edge; user supplied cell types may put edge cells anywhere, or nowhere.",
  ["inputs", "histories", "configurations"],
  "all cell type layouts, all particle positions, single steps and runs to a target time, all later calls",
  "Tests check one particle beside one edge cell in each routine; they do not cover the first row and column, interior edge cells, or repeated calls after absorption.",
  [LW, PT], [("check_for_boundary", LW), ("edge test before a target run", PT)], ["returned walk data"]),
P("C03", "Particles only enter wet neighbours that the flow leads to",
  "In the weighted random walk a particle only moves to a neighbour deeper than the wet threshold and not land, which lies lower on the water surface (if the surface has weight) or in the direction of the cell's discharge (if inertia has weight). If there is such a neighbour an iteration does move the particle; if there is none it goes to, or stays at, a deepest cell of its 3x3 surroundings.",
  ["inputs", "configurations", "histories"],
  "all depth, stage, discharge and cell type patterns (NaNs, dry and land cells, pits, still water) and all settings of the routing parameters",
  "Tests assert a few weights on hand made 3x3 patches; the rule has to hold for each of the 9-cell patterns and each random draw.",
  [LW], [("make_weight", LW), ("random_pick", LW)], ["returned walk data"]),
P("C04", "Routing probabilities follow depth, water surface slope and discharge",
  "The probability of moving to an admissible neighbour is proportional to depth^theta * (gamma * S + (1 - gamma) * D): depth is the neighbour's, S its share of the total water surface drop (drop divided by distance) over the admissible neighbours, and D its share of the discharge directed towards them (component along the direction, divided by distance). Where all of these vanish, the deepest cells of the surroundings are equally likely.",
  ["inputs", "configurations"],
  "all combinations of theta, gamma, depths, stages and discharges around a cell, in all eight directions",
  "Tests compare some weights for one or two settings; frequencies over many particles in many patterns are never looked at.",
  [LW], [("make_weight", LW), ("random_pick", LW)], ["frequencies of the first step of many particles"],
  [{"name": "routing weights", "meaning": "relative weight of the 9 directions of every cell", "where": LW}]),
P("C05", "Steepest descent always takes a highest weighted neighbour",
  "In steepest descent mode every step goes to a neighbour whose routing weight is the highest, never to a lower weighted one, and equal best neighbours are chosen between at random. Where no neighbour has weight it goes to a deepest neighbour, and stays if the cell itself is the only deepest one.",
  ["inputs", "configurations", "histories"],
  "all domains and parameters with steepest descent switched on, all cells and repeated visits",
  "Tests call the pick function on one weight vector; whole walks over varied grids are not judged against the weights.",
  [LW], [("steep_descent", LW), ("make_weight", LW)], ["returned walk data"]),
P("C06", "Travel times follow path length, flow direction and speed",
  "A step takes the distance moved, projected on the flow direction of the cell it leaves, times the mean of 1/speed of the two cells, changed by diffusion by at most half the diffusion coefficient (as a fraction) and spread over that whole range; without diffusion it is exact. Sideways or upstream steps take no time, so recorded times are finite and never decrease.",
  ["inputs", "configurations", "histories"],
  "all velocity fields (oblique, still, mixed), cell sizes, directions and diffusion coefficients",
  "Tests check the travel time of one or two steps in a uniform flow along the grid; oblique flows, speed changes and the spread of diffusion are untested.",
  [LW, PT], [("calc_travel_times", LW), ("velocity and velocity_angle", PT)], ["travel times in the walk data"]),
P("C07", "Walk histories only grow and stay aligned",
  "A call to move particles returns the stored histories, in which everything recorded before is unchanged, in the same order of particles. Rows, columns, times and all tracked variables of a particle always have the same number of entries; a single iteration appends at most one entry per particle, and none if it did not move.",
  ["histories", "programs"],
  "all sequences of seeding, stepping, target runs, clearing and loading of walk data",
  "Tests look at the result of one or two calls; the guarantee concerns arbitrary call sequences and mixtures of moving and stuck particles.",
  [PT], [("run_iteration", PT), ("generate_particles", PT)], ["returned and stored walk data"]),
P("C08", "Tracked variables are the grid values where the particle was",
  "Every recorded value of a tracked variable (depth, stage, discharge, velocity, region flag) equals the value of that grid at the position recorded beside it; the region flag is 1 exactly where the region grid is 1 and is always tracked when a region grid is given. Entries of positions recorded before a variable was tracked (walk data handed over without it) are filled with None.",
  ["histories", "configurations", "inputs"],
  "all sets of tracked variables, with and without region grids, all call sequences and handed over walk data",
  "Tests check selected variables after one iteration; merging with earlier particles, seeding several times and target runs are not covered for each variable.",
  [LW, PT], [("particle_stepper optional variables", LW), ("generate_particles optional variables", PT)], ["returned walk data"]),
P("C09", "Runs to a target time stop as close to it as the last step predicts",
  "In a run to a target time a particle takes another step if and only if moving on by the duration of its latest step (at least 0.1 s; 0.1 s for a particle that has not moved yet) would bring it no further from the target than it is now. It stops earlier only because it is at an edge, did not move, or used up its iteration limit; particles already past the target are left alone.",
  ["inputs", "histories", "configurations"],
  "all target times (also decreasing ones), step durations, particles with different clocks, repeated runs",
  "Tests compare final times of one channel flow with the target; the stopping rule has to hold for each particle, clock and sequence of targets.",
  [PT], [("run_iteration target loop", PT)], ["travel times in the walk data"]),
P("C10", "The iteration limit bounds each particle and is reported by name",
  "In a run to a target time no particle takes more than the given maximum number of iterations. Exactly when at least one particle used up that number, a warning (unless messages are switched off) is issued that lists precisely those particles.",
  ["inputs", "histories", "configurations"],
  "all limits, targets and groups of particles of which some, none or all run into the limit, including no particles at all",
  "No test has several particles of which only some reach the limit.",
  [PT], [("run_iteration count and _iter_particles", PT)], ["walk data", "warnings"]),
P("C11", "Seeding creates exactly the requested particles and keeps the others",
  "Seeding adds the requested number of particles with the given start time: with the exact method location after location in turn (starting over when the list is used up), with the random method on rows and columns drawn from the given lists, all of which can be drawn. Particles handed over come first, then those already there, then the new ones, and their histories are unchanged; invalid arguments are refused with TypeError or ValueError and change nothing, and moving before seeding or after clearing raises ValueError. A start time other than 0 is warned about unless messages are switched off.",
  ["inputs", "histories", "programs"],
  "all counts, location lists (lists, tuples, arrays), start times, methods, and earlier particles",
  "Tests seed a few particles once or twice and check counts.",
  [PT], [("generate_particles", PT), ("gen_input_check", PT)], ["stored walk data", "number of particles"]),
P("C12", "Runs are repeatable and objects do not influence each other",
  "With the same random seed, the same parameters and the same calls, the walks are identical, also when the parameter object has been used before to build other particles. Calls on one particle object leave the walks of every other object alone, and walk data handed over as input are not modified.",
  ["programs", "histories"],
  "all interleavings of calls on two objects sharing parameters, fields or walk data",
  "Tests use one object per parameter set; shared parameters and interleaved objects are never exercised.",
  [PT, LW], [("Particles.__init__ copies", PT), ("generate_particles copies", PT)], ["walk data of all objects", "inputs after the call"]),
P("C13", "Domain fields are derived consistently from any sufficient inputs",
  "Depth, stage, discharge and velocity agree whichever sufficient inputs are given: depth = stage - topography clipped at 0 (missing: 0), stage = topography + depth and undefined where dry, discharge = velocity * depth and back, flows turned from (right, up) to (down, right) except for DeltaRCM input. Default cell types are edge on the outermost ring, land where shallower than the wet threshold and water elsewhere; missing options take their documented defaults, a negative diffusion coefficient counts as 0 (which, like one of 2 or more, is warned about unless messages are switched off), and insufficient inputs or a region grid of another shape raise ValueError.",
  ["inputs", "configurations"],
  "all combinations of given and missing inputs, NaN patterns and orientations",
  "Tests cover one grid per branch; equivalence between the branches and orientation of each component for general fields are not checked.",
  [PT], [("Particles.__init__", PT)], ["attributes of the particle object", "walks"],
  [{"name": "domain fields", "meaning": "depth, stage, qx, qy, u, v, cell_type", "where": PT}]),
P("C14", "Parallel routing returns every particle once, walked independently",
  "Routing in parallel on n cores returns n times the requested particles, each with as many iterations as asked for (unless stuck) and a walk that obeys all routing rules, tracked variables included and aligned. Processes walk independently of each other (not copies of one random sequence), the particle object passed in is unchanged, and combining results only concatenates them in order.",
  ["schedules", "inputs", "configurations"],
  "all numbers of cores, particles and iterations, all assignments of tasks to worker processes",
  "Tests only check the number of returned entries.",
  [PR], [("parallel_routing", PR), ("combine_result", PR)], ["returned walk data", "particle object afterwards"]),
P("C15", "Exposure time counts exactly the time spent inside the region",
  "The exposure time of a particle is the sum over its steps of the step's duration if both ends are inside the region, half of it if exactly one is, nothing otherwise; particles are listed in order. Hence it is never negative or longer than the particle's total time, repeated visits all count, it is additive over consecutive parts of a walk, and a region and its complement share out the total time. The particles that have moved and are inside at the end are reported by number.",
  ["histories", "inputs"],
  "all walks and all regions",
  "Tests check four short walks.",
  [PT], [("exposure_time", PT)], ["returned list"]),
P("C16", "States at an iteration or time are the entries that were recorded then",
  "The state at an iteration lists, for every particle in order, position, time and tracked values of that entry, or of the last entry for particles with fewer. The state at a time lists the recorded entry nearest in time (the first of equally near ones); how many particles have fewer entries, and which never reached the time, is reported; the walk data are not modified and tracked values always belong to the same entry as the position.",
  ["histories", "inputs"],
  "all walk data with histories of different lengths, all iterations (negative ones included) and times",
  "Tests query single particles at a few indices.",
  [RT], [("get_state", RT), ("get_time_state", RT)], ["returned lists"]),
P("C17", "Nourishment maps are visit counts and mean occupation times",
  "Without smoothing, the nourishment area is the number of recorded visits of each cell, clipped at the given percentile and divided by the maximum, undefined where never visited. The nourishment time is the mean over a cell's visits (first and last entries of a walk excluded) of half the previous plus half the next step's duration, clipped likewise; smoothing is a Gaussian filter of the given width of these maps, and the maps have the shape of the raster.",
  ["histories", "inputs"],
  "all walk data, raster shapes, smoothing widths and clipping percentiles",
  "Tests check one walk without smoothing.",
  [PT], [("nourishment_area", PT), ("nourishment_time", PT)], ["returned arrays"]),
P("C18", "Geographic and index coordinates convert to and fro",
  "Converting positions to coordinates and back yields the same cells; a coordinate within half a cell of a cell's coordinate is converted to that cell. Rows count downwards from the top and columns rightwards from the origin, for any origin, cell size and raster shape, and conversion of walk data adds coordinates without changing anything else.",
  ["inputs", "histories"],
  "all origins, cell sizes, raster shapes and positions",
  "Tests convert one or two points.",
  [PT], [("coord2ind", PT), ("ind2coord", PT)], ["returned indices and coordinates"]),
P("C19", "Spatial exposure assigns each particle to the chunk it started in",
  "The domain is divided row by row into square chunks, the last row and column of chunks taking the remainder, so that every cell is in exactly one chunk. For each chunk containing part of the region, the result lists the exposure times of exactly the particles that started in it - to the whole region (systemwide) or to the region's cells inside the chunk (localized) - and NaN for the others.",
  ["histories", "inputs", "configurations"],
  "all walk data, region masks, grid shapes and chunk sizes",
  "Tests use one grid with particles in the middle of chunks.",
  [SP], [("systemwide", SP), ("localized", SP), ("_find_common_indices_info", SP)], ["returned lists"]),
P("C20", "Exposure thresholds are ordered percentiles, smoothed robustly",
  "Per chunk, the 50, 75 and 90 % thresholds are the times (in the given unit) at which the kernel density distribution of its nonzero exposure times reaches these fractions, undefined for fewer than five different values; they lie in the range of the data and do not decrease. The filter replaces each defined cell by the mean of the values in its window that are within the given number of median absolute deviations of the window's median (the median if the deviation is 0) and keeps undefined cells undefined.",
  ["inputs", "configurations"],
  "all exposure data, grid shapes, units, window sizes and filter thresholds",
  "Tests check shapes and one constant case.",
  [SP], [("compute_thresholds", SP), ("median_absolute_deviation_filter", SP)], ["returned arrays"]),
P("C21", "Flux proportional seeding hands out exactly all particles fairly",
  "The counts per time step are non negative whole numbers that sum up to the requested total; each is the step's share of the absolute discharge rounded down or up, and exact when that share is whole. Steps rounded up have remainders no smaller than those rounded down; too few time steps or zero discharge raise ValueError.",
  ["inputs"],
  "all discharge series (reversals, zeros, ties, columns) and particle totals",
  "Tests use two or three series.",
  [PT], [("flux_proportional_seeding", PT)], ["returned array"]),
P("C22", "Gridding interpolates from the nearest points in the right place",
  "The raster spans the extent of the points with the given cell size, the first row being the northernmost; each cell holds the value of the nearest point (k = 1) or the mean of the k nearest weighted by inverse distance, so values at the points are reproduced and none exceeds the range of the data. With a boundary, cells outside it are undefined and, when cropping, rows and columns that are entirely undefined are removed; the returned function grids another quantity the same way.",
  ["inputs", "configurations"],
  "all point sets, cell sizes, numbers of neighbours, boundaries and quantities",
  "Tests grid four points.",
  [PT], [("unstruct2grid", PT)], ["returned raster and function"]),
P("C23", "Simulation routines reproduce, save and resume the walk they plot",
  "The steady and travel time routines return, after n iterations, the walk that n iterations produce, and the unsteady routine one whose part up to each model time obeys the fields of that interval and its target time (asking for more times than there are files is warned about, and stops at the last). The data file written holds exactly the returned walk, one figure is written per iteration, showing where the particles then are (coloured by their travel times in the travel time routine) over the water depth of that time, and reloading the file and handing it over continues the walk with nothing lost.",
  ["histories", "inputs", "configurations"],
  "all numbers of iterations and time steps, file types, tracked variables and domains",
  "Tests check that files exist.",
  [RT], [("steady_plots", RT), ("time_plots", RT), ("unsteady_plots", RT)], ["returned walk data", "files written"]),
P("C24", "Logging setup and the deprecated verbose switch take effect",
  "Setting up logging sets the given level (any case), attaches at most one handler however often it is called, uses a supplied handler if there was none, and refuses unknown levels with ValueError without changing anything. The deprecated switch warns about its deprecation and sets INFO or ERROR for True or False; left out or None it neither warns nor changes the level.",
  ["histories", "inputs"],
  "all sequences of set up calls and uses of the switch",
  "Tests make single calls.",
  [LG, PT, RT], [("setup_logging", LG), ("handle_verbose_deprecation", LG)], ["logger level and handlers", "warnings"],
  [{"name": "logger", "meaning": "package logger with level and handlers", "where": LG}]),
P("C25", "Plotted exposure distributions are the fraction of particles that left",
  "The cumulative exposure curve starts at 0, never decreases, and at time t shows the number of particles with a positive exposure time of at most t, among those below 99 % of the end of the record, divided by the number of all particles. Times are scaled by the given unit, which the axis names, the curve ends at the earliest (or, for uniform time steps, latest) final time of the particles, and the saved exposure times are those passed in. The differential curve is the slope of the line through the cumulative one at evenly spaced times, and the thresholds reported are the first times at which 50, 75 and 90 % of all particles have left, or that this share is not reached.",
  ["histories", "inputs", "configurations"],
  "all exposure time lists, units, end time rules, with and without tracked variables",
  "Tests check that files exist.",
  [RT], [("plot_exposure_time", RT), ("plot_exposure_time_thresholds", RT)], ["lines in the figures", "saved file"]),
P("C26", "Plots of positions and paths show the recorded walks",
  "Plotted particle positions are those of the requested iteration or time, with columns across and rows down; drawn travel paths are exactly the recorded cells of the particles asked for, in order, thinned by the given interval. Figures with tails show recorded positions of each particle up to the current iteration, going back by the given interval as often as asked for in fading colours, one file per requested step for as long as some particle has a history that long. All of them lie over the given grid, each value in its own cell. Nourishment plots mark the cell where the first particle was seeded if asked to.",
  ["histories", "inputs"],
  "all walk data, particle selections, iterations, times and intervals",
  "Tests check that files exist.",
  [RT], [("plot_state", RT), ("draw_travel_path", RT), ("snake_plots", RT), ("show_nourishment_area", RT), ("show_nourishment_time", RT)], ["artists in the figures"]),
P("C27", "Maps and animations show the given values and figures in place",
  "Nourishment maps show every value in its own cell, rows downwards: the colour runs linearly through the colour map from the least value to 1 (areas) or to the greatest value (times, as on the colour bar), opacity does not fall with the value, is at least the given minimum and full for the greatest, and undefined cells are left out; a given grid is shown underneath and, with walk data, the start of the first particle marked (unless switched off), all in the axes in use if there are any. Spatial maps show the given exposure grids in order, each stretched over the full domain and its elevation, with even levels from 0 to the given maximum, and return the axes they drew on. Animations consist of the saved figures from the first number up to, not including, the last, in order and upright.",
  ["inputs"],
  "all maps with undefined cells, colour maps, opacities, grids, level counts and figure ranges",
  "Tests call the functions and only check that they return.",
  [RT, SP], [("show_nourishment_area", RT), ("show_nourishment_time", RT), ("plot_spatial", SP), ("animate_plots", RT)], ["images in the figures", "frames handed to the movie writer"],
  [{"name": "maps", "meaning": "2-D arrays of values, NaN where undefined", "where": RT}]),
P("C28", "The shipped example domains are the described ones and can be walked",
  "Each call of the example helpers gives a fresh domain (changing one changes no other) that holds the values of the shipped data file, with the documented cell size, routing parameters and flow directions: the river delta with 50 particles seeded in rows 15 and 16, columns 137 to 139 of its inlet and no discharge, the ANUGA domain with its discharges and its depths as water surface. Walks through them only take steps that surface slope or discharge lead to over wet cells, take the time path length and speed allow, and end where iterations and target times say.",
  ["inputs", "histories"],
  "all random draws, numbers of iterations and target times in the two shipped domains",
  "Tests never import the helpers.",
  [EX, PT], [("make_rcm_particles", EX), ("make_anuga_params", EX), ("Particles", PT)], ["fields of the returned objects", "walk data"]),
]

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in ALL:
            f.write(json.dumps(p) + "\n")
    print(len(ALL))
