"""Source of properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['crowddynamics/' + f for f in files],
                               mechanism=[dict(name=n, where='crowddynamics/' + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


I, H, C, S, F = 'inputs', 'histories', 'configurations', 'schedules', 'fault_sequences'

p('C01', 'Array recordings load back exactly what was sent, in order',
  'For every sequence of arrays sent to an array recorder with any pattern of dump requests, the files of that basename hold, read back in recording order, every row sent before the last dump exactly as it was when it was sent - nothing lost, duplicated, reordered or altered by later changes to the caller\'s array. Rows sent after the last dump are in no file yet, and each dump leaves one complete, loadable file whose earlier files are never rewritten. Files in the directory that belong to another basename, or to no recording, neither change nor break what is loaded.',
  [H, I], 'All histories of sends, in-place edits and dump/no-dump decisions; structured and plain dtypes; more than ten chunks; any basename (digits, underscores, dots, prefixes of each other); directories with foreign files.',
  'The one io test writes a few constant chunks under one random basename in an empty directory; it never has >10 chunks, in-place edits, foreign files or digits in the basename.',
  ['io.py'], [('recording coroutine', 'io.py:save_npy'), ('file discovery', 'io.py:find_npy_files'), ('ordered loading', 'io.py:load_npy, load_npy_concatenated')], ['files on disk after every send', 'arrays yielded by load'])
p('C02', 'Tabular recordings hold one header and every dumped row once, in order',
  'For every sequence of records sent to a tabular recorder with any pattern of dump requests, the file after each dump parses as CSV to one header row naming the first record\'s keys followed by one row per record sent so far, in order, each value under its own key as it was when sent. Nothing reaches the file between dumps, and no text that was already in the file is ever rewritten.',
  [H, I], 'All histories of records and dump decisions, with values containing separators, quotes, newlines and unicode, and records whose keys come in a different order or are mutated after sending.',
  'The io test sends three fixed records and asserts nothing about the file\'s content.',
  ['io.py'], [('recording coroutine', 'io.py:save_csv')], ['file bytes after every send'])
p('C03', 'Geometry saved to JSON loads back equal',
  'For every dictionary whose values are nothing, a single geometry of any type (including multi-part ones and polygons with holes), or a list or a mapping of geometries, loading the file that was saved gives the same keys and, under each, the same structure of equal geometries. Saving again under the same file name replaces the former content.',
  [I, H], 'All geometry types, containers, emptiness, holes, and repeated saves to one file.',
  'No existing test that runs here saves or loads a geometry.',
  ['io.py'], [('serialisation', 'io.py:geometry_mapping, save_geometry_json'), ('deserialisation', 'io.py:geometry_shape, load_geometry_json')], ['JSON text', 'loaded objects'])
p('C04', 'A recorded simulation can be reconstructed from its saved files',
  'A simulation that records itself saves, for every iteration up to the last time its save condition held, exactly one state of all agents and one row of its data, equal to what the live simulation held at the moment of recording, together with metadata and geometry that load back equal. The recording is taken once per iteration, after every other part of that iteration.',
  [H, C, I], 'All simulations, save conditions (periodic, irregular, never), run lengths and agent models.',
  'No test that runs here saves a simulation.',
  ['simulation/logic.py', 'io.py'], [('saving node', 'simulation/logic.py:SaveSimulationData'), ('injection', 'simulation/base.py:inject_before')], ['live arrays at each update', 'files in the save directory'])
p('C05', 'A configuration is accepted only if all its values satisfy the specification',
  'Loading a configuration with a specification succeeds exactly when every specified value is present or has a default and is of its type and inside its bounds; otherwise the validation error is raised. On success each value is returned converted to its specified type, and loading without a specification returns the raw text values.',
  [I, C], 'All specifications over the supported checks and all files with any subset of values missing, mistyped or out of bounds, in any section.',
  'No test that runs here loads an invalid configuration, in particular one where only some values are invalid.',
  ['config.py'], [('validation', 'config.py:load_config')], ['returned mapping or raised error'])
p('C06', 'Utilities restore state, find exactly the subclasses, and report signatures',
  'The working directory is the same after a directory-scoped block as before it, however the block ends, and is the given directory inside it. Importing subclasses from a module file yields exactly the strict subclasses bound in that module, in definition order; parsing a signature yields every parameter except self in order with its default and annotation; a docstring template is filled with every given substitution; and a deprecated function warns and then behaves as the original.',
  [I, H], 'All nesting/exception histories of directory blocks, all generated module files, all signatures, all call argument shapes.',
  'None of these utilities is exercised by a test that runs here.',
  ['utils.py', 'exceptions.py'], [('cwd', 'utils.py:remember_cwd'), ('discovery', 'utils.py:import_subclasses, filter_cls'), ('signatures', 'utils.py:parse_signature'), ('deprecation', 'exceptions.py:deprecated')], ['os.getcwd()', 'returned values', 'warnings'])
p('C07', 'The command line runs the named simulation with the options given',
  'For every directory of simulation modules, the listing names exactly the simulations defined there, and each gets its own run command that constructs that very class with exactly the values of the options given (and the declared defaults otherwise) and runs it, as many times as asked for. Option values outside a declared type, bound or choice are refused and that simulation is never run. Messages of the chosen logging level and above, and no others, reach the log files, and concatenating a recording writes the concatenation of its chunks in order.',
  [I, C], 'All sets of modules, classes and traits; all option subsets and invalid values; chained commands; recordings of any length.',
  'The command line is not exercised by any test that runs here.',
  ['cli.py', 'traits.py'], [('discovery', 'cli.py:import_simulations'), ('command creation', 'cli.py:simulation_commands'), ('options', 'traits.py:trait_to_option'), ('logging', 'logging.py:setup_logging'), ('concatenation', 'cli.py:concat_npy')], ['constructor and run calls', 'exit codes and output', 'log files', 'written file'])
p('C08', 'Block lists return exactly the items of the neighbouring cells',
  'After any sequence of insertions and queries, looking up a point returns exactly the items inserted in its own cell, and a neighbourhood query of radius k returns exactly the items of all cells at most k cells away in every dimension, each once and in no other number; in particular no item closer than k times the cell size is ever missed. Queries never change later results, and nothing already stored is lost or moved.',
  [H, I], 'All histories of insertions and queries in 1-4 dimensions, negative and boundary coordinates, any cell size and radius, every list type.',
  'The tests insert random integer points and check a handful of lookups of the inserted keys; they never check completeness against an independent model, radii other than 1, or interleavings.',
  ['core/block_list.py'], [('cell transform', 'core/block_list.py:_transform'), ('neighbour cells', 'core/block_list.py:_nearest_blocks'), ('queries', 'core/block_list.py:__getitem__, nearest')], ['returned lists'])
p('C09', 'Logic trees keep every node, evaluate children first, and find nodes by name',
  'After any sequence of adding children, injecting before and injecting after, the structure is still one tree that holds every node once, with the injected node placed directly between the intended neighbours and all other order unchanged. Looking a name up from any node returns the first node of that name in pre-order from the root, or a key error if there is none, and one simulation update evaluates every node exactly once with all children before their parent.',
  [H], 'All histories of tree edits over all tree shapes, including injections at the root, at leaves and between siblings.',
  'The tests only create a node and check that its update is not implemented.',
  ['simulation/base.py', 'simulation/multiagent.py'], [('edits', 'simulation/base.py:inject_before, inject_after, add_children, __lshift__'), ('lookup', 'simulation/base.py:__getitem__'), ('evaluation', 'simulation/multiagent.py:update')], ['node.update calls', 'parent/children after each edit'])
p('C10', 'The run loop stops exactly at the exit condition and accounts time exactly',
  'Running evaluates the exit condition before every update and performs no update once it is true, so the number of updates equals the number of times it was false. After every update the iteration counter has grown by exactly one, the last step is within the configured bounds, and total time equals the sum of the steps taken; every simulation object keeps its own data, metadata and timestamp, and its metadata carries its name and timestamp from construction.',
  [H, C], 'All exit conditions (stateful, immediate, at any iteration, raising), step bounds and populations; several simulations alive at once.',
  'The tests check that an abstract base raises NotImplementedError.',
  ['simulation/base.py', 'simulation/multiagent.py', 'simulation/logic.py'], [('loop', 'simulation/base.py:run'), ('counters', 'simulation/multiagent.py:update, logic.py:Integrator')], ['condition and update calls', 'simulation.data after each update'])
p('C11', 'A simulation process always ends its queue with one end marker',
  'However the simulation in a simulation process ends - exit request before start or at any moment, library error, any other exception - the queue receives everything the simulation put, in order, followed by exactly one end marker and nothing after it. After a stop request no more than the update in progress is completed.',
  [S, F, H], 'All stop moments and all error kinds raised at any iteration, in real child processes and in-process runs.',
  'No test that runs here starts a simulation process.',
  ['simulation/multiagent.py'], [('process body', 'simulation/multiagent.py:MultiAgentProcess.run, stop')], ['queue contents', 'update count'])
p('C12', 'Agents convert to arrays and back without loss',
  'For every agent model and every assignment of valid attribute values, the array made from an agent has one record whose fields are exactly the state, body and motion attributes of the model, each equal to the attribute, and loading that record into another agent makes it produce an identical record. Invalid values are refused and leave the agent unchanged, agents never share mutable state with each other or with arrays made from or loaded into them, and model detection is true for exactly the model the array was made from.',
  [I, H], 'All models, all attributes, boundary values, sequences of assignments, many agents alive at once.',
  'The tests that cover agents cannot run here and sample one default agent.',
  ['simulation/agents.py', 'traits.py'], [('dtype', 'traits.py:class_to_struct_dtype'), ('conversion', 'simulation/agents.py:AgentType.__array__, from_array'), ('detection', 'simulation/agents.py:is_model')], ['arrays and attributes'])
p('C13', 'Body types give agents bounded, mutually consistent body measures',
  'Every agent created from a body type gets a radius, mass and target velocity within the truncation bounds of that type\'s distributions (mean plus or minus scale), torso and shoulder measures that are the type\'s ratios of its radius (the shoulders of the shipped types reaching out to the radius), and a rotational inertia given by the documented formula of its mass and radius. A radius, mass, target velocity or inertia given explicitly is kept, a body type can be set only once, and the drawn values vary and are not biased to one side.',
  [I, C, H], 'All body types, models, orders of keyword arguments and subsets of explicitly given measures; many draws.',
  'No test that runs here creates an agent.',
  ['simulation/agents.py', 'core/rand.py', 'conf/body_types.cfg'], [('observers', 'simulation/agents.py:BodyType'), ('sampling', 'core/rand.py:truncnorm')], ['agent attributes'])
p('C14', 'Placed agents never overlap each other or obstacles',
  'After any sequence of adding groups, every agent in the array was really placed: its position is one that the position source produced, no two placed agents overlap under their model\'s geometry, and none overlaps an obstacle given for its group. Agents placed earlier are never changed, the array holds exactly the placed agents in order, as many as the group has unless the attempts ran out, and adding terminates.',
  [H, I], 'All histories of groups, position sources (dense, sparse, adversarial, repeated points), radii below the documented cell size and obstacle sets.',
  'No test that runs here places agents.',
  ['simulation/agents.py', 'core/block_list.py', 'core/distance.py'], [('placement', 'simulation/agents.py:Agents.add_non_overlapping_group'), ('overlap tests', 'simulation/agents.py:overlapping_*')], ['agents.array after each call', 'positions produced'])
p('C15', 'Agent groups hold exactly the described agents',
  'A group described by a size and a source of attributes - a collection, a generator or a callable - has exactly that many members of its agent type (for a collection, one per element), the k-th built from the k-th attributes the source gave. Each attribute set taken from a generator is used for a member, whatever the order in which the group\'s parts are given.',
  [I, H], 'All sizes, source kinds, argument orders and agent types.',
  'No test that runs here creates a group.',
  ['simulation/agents.py'], [('members', 'simulation/agents.py:AgentGroup')], ['group.members', 'source consumption'])
p('C16', 'Planar vector operations obey their algebra for every finite vector',
  'Rotations by +-90 degrees preserve length and are mutually inverse, unit vectors have the given angle, wrapping an angle stays in [-pi, pi] and changes it by a whole number of turns, normalising gives unit length in the same direction (zero stays zero), truncation never lengthens and keeps direction, and dot, cross, angle, length and weighted average equal their definitions. Operations other than truncation leave their arguments unchanged, and array forms equal the element-wise forms.',
  [I], 'All finite vectors and angles over many magnitudes, exact multiples of pi/2, zero and tiny vectors, batches.',
  'The tests that sample these cannot run here, and sample only random mid-range values.',
  ['core/vector2D.py'], [('operations', 'core/vector2D.py')], ['returned values', 'arguments after the call'])
p('C17', 'Skin-to-skin distances and contact arms are the geometric ones',
  'For every pair of circles, three-circle bodies, and circle or body against a wall segment, the reported distance is the minimum over parts of the true geometric gap (negative when overlapping), the normal is the unit vector that points from the second object to the first along that gap, and each moment arm is the documented one, which leads from the body centre to the surface of the closest part along that normal. Swapping two bodies keeps the distance and reverses the normal, and moving or rotating everything together moves and rotates the results.',
  [I], 'All positions, radii, orientations, including concentric, touching and end-cap cases, near and far walls.',
  'The tests that sample distances cannot run here and assert only types and signs.',
  ['core/distance.py'], [('distances', 'core/distance.py')], ['returned tuples'])
p('C18', 'Area, crossing and segment conversion agree with exact geometry',
  'The area of any simple polygon is its exact area for either orientation and any starting vertex, two non-parallel segments are reported crossing exactly when they share a point, and a line of sight is blocked exactly when some obstacle segment crosses it. Converting geometry to wall segments yields every edge of every part, holes included, exactly once and nothing else, and converting to a flat array yields every part\'s coordinates.',
  [I], 'All simple polygons, all segment pairs on an exactly representable grid (touching, T, crossing, apart), all geometry types and nestings.',
  'The tests that sample these cannot run here and only check types.',
  ['core/geom2D.py', 'core/sensory_region.py', 'core/geometry.py'], [('area/crossing', 'core/geom2D.py'), ('sight', 'core/sensory_region.py'), ('conversion', 'core/geometry.py')], ['returned values'])
p('C19', 'Exit capacity, exit ranking and exit detection match their definitions',
  'Exit capacity is zero for a door narrower than an agent and otherwise the documented step function, so it never decreases as the door widens. The ranking gives each agent the number of agents closer to the exit (a permutation consistent with distance), and an agent detects an exit exactly when one is in range with a free line of sight, choosing the closest such exit.',
  [I], 'All door, agent and layer widths; all agent/exit/obstacle arrangements without ties.',
  'The tests that sample these cannot run here.',
  ['core/evacuation.py'], [('capacity', 'core/evacuation.py:narrow_exit_capacity'), ('ranking', 'core/evacuation.py:agent_closer_to_exit'), ('detection', 'core/evacuation.py:exit_detection')], ['returned values'])
p('C20', 'Social force is the capped gradient of the time-to-collision energy',
  'For two agents that will collide within the interaction horizon, the social force on each is minus the spatial gradient of its own documented interaction energy at the time to collision, cut to the documented maximum magnitude; for agents that will not collide, move identically or already overlap it is zero. Swapping the two agents swaps the forces, and agents with equal mass and constants feel equal and opposite forces.',
  [I], 'All relative positions, velocities, radii, orientations and constants, both models, including grazing and head-on collisions and each choice of colliding parts.',
  'The tests that sample forces cannot run here and assert only types and the cap.',
  ['core/motion/power_law.py'], [('forces', 'core/motion/power_law.py')], ['returned forces'])
p('C21', 'Every interacting agent pair is counted exactly once, and only those',
  'One agent-agent interaction pass changes each agent\'s force (and torque) by exactly the sum of the pair interactions over all pairs closer than the interaction range, whatever the cell size (as long as a cell is at least the range plus the extents of two agents), order of agents and translation of the crowd, and changes nothing else. Pair contact adds equal and opposite contact forces for equal constants, so total force stays zero for identical agents, and agents beyond the range do not influence each other.',
  [I], 'All crowds from sparse to heavily overlapping, clusters at cell borders, negative coordinates, both models, permutations of agents.',
  'The tests that run interactions cannot run here and assert nothing about the values.',
  ['core/interactions.py'], [('cell pass', 'core/interactions.py:agent_agent_block_list'), ('pair laws', 'core/interactions.py:interaction_agent_agent_*')], ['agent arrays before and after'])
p('C22', 'Walls act on exactly the agents that touch them, with the contact law',
  'One obstacle pass adds to each agent the contact law\'s force for every wall segment it overlaps and nothing for other walls, for bodies with the torque of that force about the centre, and changes nothing else. The contact force follows the documented law with its damping: at rest overlapping objects are pushed apart, sliding is opposed, and there are only normal and tangential components.',
  [I], 'All agents and walls, touching, overlapping and apart, both models, any velocities and constants.',
  'The tests that run interactions cannot run here and assert nothing about the values.',
  ['core/interactions.py', 'core/motion/contact.py'], [('contact', 'core/motion/contact.py:force_contact'), ('wall pass', 'core/interactions.py:agent_obstacle')], ['agent arrays before and after'])
p('C23', 'Adjusting force and torque drive each agent to its target and nothing else',
  'The adjusting step adds to each agent exactly mass over adjusting time times the difference of desired and current velocity, and for oriented agents the documented torque towards the target orientation along the shorter way round. It is zero exactly at the target, never points away from it for an agent at rest, acts on each agent independently, and changes no other attribute; orientation targets are the direction of the target direction.',
  [I], 'All masses, times, velocities, directions, orientations across the +-pi seam, both models.',
  'The tests that sample these cannot run here.',
  ['core/motion/adjusting.py', 'core/steering/orientation.py', 'simulation/logic.py'], [('laws', 'core/motion/adjusting.py'), ('orientation', 'core/steering/orientation.py')], ['agent arrays before and after'])
p('C24', 'Integration advances each agent by its scheme with a bounded adaptive step',
  'Each integration step uses a step inside [dt_min, dt_max] chosen by the documented rule, and moves each agent exactly by the Euler or velocity-Verlet formulas of its own force and torque, so under a steady force successive positions have exactly the second difference force over mass times the squared step, and free motion stays straight. Afterwards orientation is in [-pi, pi], shoulders lie at the documented offsets of the new position and orientation, previous forces are the forces just used, and nothing else changed.',
  [I, H], 'All states, forces, both models and integrators, multi-step histories, extreme step bounds.',
  'The tests that run integrators cannot run here and assert only that they return.',
  ['core/integrator.py', 'simulation/agents.py'], [('step size', 'core/integrator.py:adaptive_timestep'), ('schemes', 'core/integrator.py'), ('shoulders', 'simulation/agents.py:shoulders')], ['agent arrays before and after'])
p('C25', 'Random motion stays within its bounds and random clocks follow their law',
  'Fluctuation force on each agent has magnitude at most three scales times its mass, a direction spread evenly over the circle, and fluctuation torque is symmetric within three scales times inertia; truncated samples stay inside their bounds, and random vectors have the requested length and angle range. Poisson update times lie strictly inside the window in increasing order with the expected rate, timings list only the given players in time order, and the caller\'s data is not changed.',
  [I], 'All masses, scales, bounds, intervals and windows; many draws.',
  'The tests that sample these cannot run here and assert only types.',
  ['core/motion/fluctuation.py', 'core/rand.py'], [('fluctuation', 'core/motion/fluctuation.py'), ('random', 'core/rand.py')], ['returned samples'])
p('C26', 'Sampling covers a polygon or line uniformly and never leaves it',
  'Every point sampled from a polygon lies inside its convex hull and every point sampled from a line string lies on it, and over many draws each part receives points in proportion to its area or length. Cumulative weights are non-decreasing with the exact totals, and single-triangle and single-segment samples follow the same law.',
  [I], 'All polygons with at least three non-collinear vertices and all line strings, from two to many segments, of very unequal parts.',
  'The tests that sample polygons cannot run here and test containment in two fixed shapes.',
  ['core/sampling.py'], [('sampling', 'core/sampling.py')], ['yielded points'])
p('C27', 'Distance and direction maps measure the way to the target',
  'The grid covers the given bounds at the given step, and its indexing returns for every point the cell whose lower corner is within one step below the point. For geometry inside the domain the distance map vanishes within a cell of the target, grows with the geodesic distance and never crosses obstacles, and the direction map holds unit vectors along the steepest approach, so that an agent that follows it arrives at the target without entering an obstacle, given a margin of some cells: up to a cell, the map leads nobody closer to obstacles than that margin, and everything beyond it stays open.',
  [I, C], 'All bounds (negative and fractional), steps, targets, obstacles and agent start points inside the reachable domain.',
  'The tests that compute maps cannot run here and assert only types.',
  ['core/steering/quickest_path.py', 'core/geometry.py'], [('grid', 'core/steering/quickest_path.py:meshgrid'), ('maps', 'core/steering/quickest_path.py:distance_map, direction_map, shortest_path'), ('drawing', 'core/geometry.py:draw_geom')], ['returned grids and maps'])
p('C28', 'Navigation gives each agent its own target\'s direction, kept off obstacles',
  'A navigation step sets the target direction of exactly the agents that have a target to the direction of the merged map of that agent\'s own target at the agent\'s cell, and leaves agents outside the grid, on cells without a defined direction, and without a target as they were. Merging two direction maps changes only cells nearer than the radius to an obstacle, gives unit vectors, blends with weight strength^(distance/radius) away from the obstacle, and leaves its inputs unchanged; the continuous form is the same law per agent.',
  [I, C], 'All maps, radii, strengths, agents inside, on the border of and outside the grid, several targets.',
  'The tests that run navigation cannot run here and assert only types.',
  ['core/steering/navigation.py', 'core/steering/obstacle_handling.py', 'simulation/logic.py'], [('merge', 'core/steering/obstacle_handling.py'), ('lookup', 'core/steering/navigation.py:getdefault'), ('node', 'simulation/logic.py:Navigation')], ['target_direction before and after'])
p('C29', 'Followers follow exactly whom they can see and should follow',
  'The neighbours found for each agent are its nearest visible agents within sight, at most the requested number, and never itself; whether one agent leads another follows from their headings alone and is symmetric under exchanging them. A follower goes through the leaders in sight from near to far and takes up the first it sees heading away, or, if that comes first, the target of its own leader when a wall hides that one; otherwise it keeps the target of its last leader, otherwise its familiar exit, and agents that are not followers never change target or leader.',
  [I, H], 'All arrangements of leaders, followers, obstacles, headings, sights and neighbour counts without ties; histories in which leaders disappear behind walls.',
  'The tests that sample these cannot run here and assert only types.',
  ['core/steering/collective_motion.py', 'simulation/logic.py'], [('neighbours', 'core/steering/collective_motion.py:find_nearest_neighbors'), ('relationship', 'core/steering/collective_motion.py:herding_relationship'), ('strategies', 'core/steering/collective_motion.py:leader_follower_*')], ['targets, leaders and directions before and after'])
p('C30', 'Leaving the domain and reaching targets are accounted exactly',
  'After every update an agent is active exactly when it is inside the outer boundary of the domain, inactive agents take no part in the simulation, and the number of inactive agents reported equals the number of agents that are inactive. The count of each target equals the number of distinct agents that have been inside it so far, so it never decreases and counts nobody twice.',
  [H, I], 'All trajectories of agents in, out of and back into the domain and targets, any polygon, several targets.',
  'No test that runs here updates these nodes.',
  ['simulation/logic.py'], [('domain', 'simulation/logic.py:InsideDomain'), ('targets', 'simulation/logic.py:TargetReached')], ['agents.active', 'simulation.data after each update'])
p('C31', 'Density grids conserve the crowd they measure',
  'The classical density grid holds in each cell the number of points in that cell per area, so that density times area sums to the number of points. The Voronoi densities use each agent\'s own Voronoi cell area: the first distributes exactly one agent per agent over the observed area, and the second gives each occupied cell its agent count divided by the summed areas of those agents\' cells (unbounded cells having a finite area by convention).',
  [I], 'All point sets of three or more points in general position, negative coordinates, non-square extents, any cell size.',
  'No test that runs here computes a density.',
  ['core/quantities.py'], [('densities', 'core/quantities.py')], ['returned grids'])
p('C32', 'Declared attributes translate faithfully to dtypes, options and tables',
  'Every declared attribute of a class translates to the dtype, option and type that represents its values and bounds, so that a default survives each translation, and unsupported declarations are refused with an error. The listing of a class\'s attributes contains each exactly once in definition order along the class hierarchy with the exclusions applied, generated tables list every attribute, and shape and length validators accept exactly the values they describe.',
  [I, C], 'All attribute kinds, bounds, defaults and class hierarchies, generated at random.',
  'No test that runs here translates an attribute.',
  ['traits.py'], [('translations', 'traits.py')], ['returned dtypes, options, tables'])
p('C33', 'Plots show the state they are given',
  'Plotted geometry, direction maps and fields appear as glyphs carrying exactly the given coordinates, each part once, and the axis ranges set for a figure contain all the data with the requested aspect ratio and at least the requested margin. The figure helper writes or shows the file it was asked for, and only when asked, and a rendered logic tree has exactly the tree\'s nodes and edges from the root.',
  [I, C], 'All geometries, ranges, aspect ratios, figure sizes, margins and tree shapes.',
  'No test that runs here plots anything.',
  ['visualizations.py'], [('glyphs', 'visualizations.py:add_geom, add_direction_map, add_field'), ('ranges', 'visualizations.py:set_aspect'), ('trees', 'visualizations.py:render_tree')], ['recorded glyphs', 'written dot files'])
p('C34', 'Fields accept only valid geometry, sample free positions, and answer for now',
  'A field accepts as domain and obstacles exactly valid, non-empty geometry and keeps its former value when it refuses, and its convex hull covers exactly its obstacles, targets and spawns. Positions sampled from a spawn lie inside the spawn and at least the given radius from every obstacle, and grids and maps always describe the field\'s present geometry and the arguments given, however the field was changed or queried before.',
  [I, H], 'All histories of setting geometry and querying; convex and non-convex spawns; several fields alive at once.',
  'No test that runs here creates a field with geometry.',
  ['simulation/field.py'], [('validation', 'simulation/field.py:_valid_domain, _valid_obstacles'), ('sampling', 'simulation/field.py:sample_spawn'), ('maps', 'simulation/field.py:navigation_to_target')], ['accepted values', 'samples', 'maps after changes'])
p('C35', 'Whole simulations stay physically and numerically sound',
  'In every step of a simulation assembled from the library\'s parts, all agent state stays finite, every array access stays inside its array, and each part of the logic changes only the attributes it is responsible for, for each agent model. Force starts every iteration from zero, so an iteration depends only on the current state, and a simulation with the same seed and description repeats exactly. After every integration step the shoulders of three-circle agents are where their torso and orientation put them, and orientations lie within one turn.',
  [H, C, S], 'All example and generated simulations, both models, densities from sparse to packed, long runs, random seeds.',
  'No test that runs here performs a simulation step.',
  ['simulation/logic.py', 'simulation/multiagent.py'], [('logic nodes', 'simulation/logic.py'), ('update', 'simulation/multiagent.py:update')], ['agent arrays around every node update'])
p('C36', 'Walls hold, exits are reached, and the crowd knows no preferred frame',
  'In a simulation with the pair, wall and adjusting forces, people inside a closed room stay inside it and do not walk through each other, two people who walk straight towards each other evade and get past each other, and a single agent whose target is an exit that can be reached gets there, around pillars and through doors. Moving, turning or mirroring the whole scene (agents and geometry) or numbering the agents or obstacles differently moves, turns, mirrors or renumbers the result and changes nothing else; with navigation this holds for shifts by whole grid steps. Agents and obstacles out of reach have no influence on the motion of an agent when the time step is fixed.',
  [H, C], 'Both models; rooms, pillars, doors and crowds of random size and place; walking into walls and into each other; hundreds of iterations.',
  'No test that runs here performs a simulation step, and each law relates whole trajectories.',
  ['simulation/logic.py', 'core/interactions.py', 'core/integrator.py', 'core/steering/navigation.py'], [('forces', 'core/interactions.py'), ('integration', 'core/integrator.py'), ('navigation', 'simulation/field.py:navigation_to_target')], ['agent arrays after every iteration'])
p('C37', 'Shipped example scenes are what their parameters describe',
  'Every shipped example field, for all of its parameters, has a domain of the size asked for; its obstacles, exits and spawns are valid and lie inside that domain, exits have the width asked for and nothing stands in them, and from every place an agent can be put there is a way to every exit. Fields that follow later changes of their parameters keep this. Every shipped example simulation holds the number of agents asked for, of the body type asked for, each inside its spawn and clear of obstacles, with the targets and the roles (leader, follower) of its group, and works on a field with the parameters it was given. In the scenes for validation somebody alone walks straight ahead at the target velocity, and two who walk towards each other get past each other.',
  [I, C, H], 'All example fields and simulations with random sizes, widths, ratios, numbers of agents and both body types; parameters changed after construction.',
  'The tests construct no shipped field or simulation with parameters other than the defaults and look at no geometry.',
  ['examples/fields.py', 'examples/simulations.py', 'examples/collective_motion.py'], [('geometry', 'examples/fields.py'), ('simulations', 'examples/simulations.py'), ('collective motion', 'examples/collective_motion.py')], ['geometry of the fields', 'agent array of the simulations'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as fp:
        for x in P:
            fp.write(json.dumps(x) + '\n')
    print(len(P))
