"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['factorio_sat/' + f for f in files],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), 'hook_needed': None}})

p('C01', 'Every layout any generator prints obeys the belt rules',
  'Every layout printed by any generator (balancer from a network, network-free, power-of-two, interchange, block) is consistent: wherever a tile outputs, '
  'the neighbour accepts from that side and vice versa, splitters come as complete pairs inside the layout, and every underground entrance meets its own exit '
  'with at least one and at most the allowed number of tiles between and no other end of the same axis in between. The printed tile description and the printed '
  'raw fields of a cell agree.',
  ['inputs', 'configurations'], 'every generator, size, option combination, underground length and edge mode',
  'the suite solves about a hundred fixed puzzles once each and compares satisfiability; it never re-reads the emitted cells against the rules',
  ['solver.py', 'template.py', 'belt_balancer.py', 'belt_balancer_net_free.py', 'belt_balancer_net_free_power_of_2.py', 'interchange.py', 'make_block.py'],
  [('tile and adjacency clauses', 'solver.py Grid.__init__, prevent_intersection'), ('underground clauses', 'solver.py prevent_bad_undergrounding, enforce_maximum_underground_length'),
   ('reading tiles back from a model', 'template.py parse_*, solver.py read_tile')], ['standard output of each generator'])

p('C02', 'The rule engine admits exactly the valid layouts',
  'For every grid size, every combination of wrapping and non-wrapping axes, every set of sides closed to belts or to undergrounds and every maximum underground '
  'length, the constraints admit a layout if and only if it obeys the belt rules: nothing valid is excluded and nothing invalid is admitted.',
  ['inputs', 'configurations'], 'all layouts over the full tile alphabet, all sizes, edge modes, closed sides, underground lengths',
  'tests pin a few dozen patterns as solvable or not; an over- or under-constraint that needs another pattern, edge or orientation is invisible to them',
  ['solver.py', 'template.py', 'cardinality.py', 'util.py'],
  [('tile alphabet', 'solver.py Grid.__init__'), ('adjacency', 'solver.py prevent_intersection'), ('undergrounds', 'solver.py prevent_bad_undergrounding, enforce_maximum_underground_length'),
   ('edges', 'solver.py block_*_through_edges, template.py get_tile_instance_offset')], ['satisfiability of the clause set under a fixed layout'])

p('C03', 'A generated balancer implements exactly the requested splitter network',
  'When the belts and splitters of a printed balancer are traced, every run of belt carries one colour, every splitter realises exactly one node of the requested network '
  '(an unused side of a node is an unconnected splitter side), each node is realised as often as the network contains it, and exactly the network\'s inputs and outputs cross the edge '
  'with the network\'s input and output colours.',
  ['inputs', 'configurations'], 'every network, size, option set',
  'tests check that some balancer exists for 30 sizes; they do not trace the emitted layout',
  ['belt_balancer.py', 'solver.py', 'network.py', 'cardinality.py'],
  [('node placement and counting', 'belt_balancer.py create_balancer'), ('colour transport', 'solver.py transport_quantity, prevent_bad_colouring')], ['standard output of belt_balancer'])

p('C04', 'Balancer end, alignment and partial-layout options are honoured exactly',
  'Inputs and outputs occupy consecutive positions on the sides selected by the options (opposite sides by default, adjacent side for a 90 degree balancer, same side for a 180 degree one), '
  'every such position is tried, the remaining end tiles are empty unless ends may be used, aligned inputs and outputs lie within each other\'s span, and every tile of a supplied partial layout '
  'appears unchanged. A layout meeting the options and implementing the network in the given size is never missed.',
  ['inputs', 'configurations'], 'every network, size, option combination and partial layout',
  'the suite never inspects the ends of a solution and never uses the 90/180/custom/use-ends/partial options',
  ['belt_balancer.py', 'belt_balancer_net_free.py', 'blueprint.py', 'solver.py'],
  [('ends', 'belt_balancer.py setup_balancer_*; belt_balancer_net_free.py setup_balancer_ends'), ('partial layouts', 'belt_balancer.py set_nonempty_tiles, solver.py set_tile')],
  ['standard output of belt_balancer and belt_balancer_net_free'])

p('C05', 'Asking for all solutions lists every layout exactly once',
  'With the option to produce all solutions each generator prints every layout that satisfies its rules and options once and only once, then stops; without it, it prints one layout if and only if one exists.',
  ['inputs', 'configurations'], 'every generator and option set', 'tests only ask whether a first solution exists',
  ['template.py', 'solver.py', 'belt_balancer.py', 'make_block.py', 'interchange.py', 'belt_balancer_net_free.py'],
  [('blocking clauses', 'template.py BaseGrid.itersolve, solver.py Grid.itersolve')], ['standard output with --all'])

p('C06', 'Network-free balancers share every input equally among all outputs',
  'In every layout printed by the network-free generators each input\'s flow is conserved along belts, split evenly by every splitter and shared equally by all outputs; '
  'with different numbers of inputs and outputs the same holds in reverse from every output, and the power-of-two generator\'s inner stage combines disjoint input sets so that the added outer splitters complete the balance.',
  ['inputs', 'configurations'], 'all sizes, input and output counts, underground lengths, alignment',
  'tests solve for existence only and never evaluate the flows of a result',
  ['belt_balancer_net_free.py', 'belt_balancer_net_free_power_of_2.py', 'solver.py', 'util.py'],
  [('flow arithmetic', 'belt_balancer_net_free.py create_*'), ('flow transport', 'solver.py transport_quantity'), ('colour sets', 'belt_balancer_net_free_power_of_2.py create_balancer')],
  ['standard output of the two generators'])

p('C07', 'Interchanges deliver one belt of each half to every output pair',
  'A printed interchange has no splitters, takes one belt per row on the left and gives one per row on the right, carries each of the two halves unmixed, and every consecutive pair of outputs receives one belt from each half '
  '(strictly alternating when requested, unchanged under a half turn with directions reversed when symmetry is requested).',
  ['inputs', 'configurations'], 'all widths, even heights, underground lengths, options', 'only existence for 16 sizes is tested',
  ['interchange.py', 'solver.py'], [('ends and colours', 'interchange.py main'), ('symmetry', 'interchange.py require_rotational_symmetry'), ('edge flow', 'interchange.py require_correct_transport_through_edges')],
  ['standard output of interchange'])

p('C08', 'Belt blocks honour their options',
  'A printed block has no splitters and no empty tile unless allowed, stays inside its edges or, when tilable, continues across opposite edges, respects the underground length including zero, has no 2 by 2 loop, has no two '
  'parallel undergrounds side by side when that is excluded, and forms one single loop through all tiles when that is requested; every block with these qualities can be produced.',
  ['inputs', 'configurations'], 'all sizes and option combinations', 'block generation has no test of any option',
  ['make_block.py', 'solver.py', 'optimisations.py', 'template.py'], [('options', 'make_block.py main'), ('single loop', 'make_block.py ensure_loop_length'), ('parallel', 'make_block.py prevent_parallel')],
  ['standard output of make_block'])

p('C09', 'Each pruning rule removes exactly the layouts containing its pattern',
  'Each optional search-pruning rule excludes a layout if and only if the layout contains that rule\'s wasteful pattern, in whichever position and rotation it occurs (and reflection, except for the rules that are defined for one hand only) and nowhere else; '
  'breaking the vertical symmetry keeps at least one of every layout and its mirror image.',
  ['inputs', 'configurations'], 'all layouts, sizes, underground lengths', 'tests run pruning only as part of whole solves; a rule wrong in one orientation still leaves a solution',
  ['optimisations.py', 'belt_balancer.py', 'interchange.py', 'template.py', 'util.py'], [('pattern clauses', 'optimisations.py'), ('edge rules', 'belt_balancer.py prevent_double_edge_belts, enforce_edge_splitters')],
  ['satisfiability under a fixed layout', 'standard output with pruning options'])

p('C10', 'The Boolean encodings mean what they say for every operand width',
  'At-most-one, exactly-one, counting, addition, increment, negation, popcount, bounds, equality, unordered pair assignment and lexicographic ordering encodings accept an assignment of their visible bits if and only if the arithmetic or counting statement is true.',
  ['inputs'], 'all operand widths and all assignments', 'no test exercises an encoding on its own',
  ['util.py', 'cardinality.py'], [('arithmetic', 'util.py'), ('cardinality', 'cardinality.py')], ['satisfiability of the produced clauses'])

p('C11', 'Blueprint export and import preserve the layout',
  'Exporting a layout yields one entity per belt, underground, inserter and splitter with the correct type, level, position and direction, numbered consecutively; importing it again, anywhere on the map, gives the same layout cropped to its '
  'bounding box; importing any supported blueprint gives each belt the shape the game gives it, from the tiles that actually feed it.',
  ['inputs'], 'every layout, belt level, label, position, encode/decode history', 'blueprints are not tested at all',
  ['blueprint.py', 'direction.py', 'tile.py'], [('export', 'blueprint.py make_blueprint'), ('import', 'blueprint.py import_blueprint, resolve_belt_input_directions'), ('string format', 'blueprint.py encode_blueprint, decode_blueprint')],
  ['blueprint encode / decode'])

p('C12', 'Text form, JSON form and rotations are lossless and geometrically correct',
  'Converting a layout of belts, undergrounds, splitters and fillers to text and back, or writing and reading any tile, gives the same layout; rotating or reflecting moves every tile and turns every direction together, so a valid layout stays valid, four quarter turns or two reflections are the identity, and compositions follow the symmetry group of the square.',
  ['inputs', 'histories'], 'all layouts and all sequences of operations', 'conversions and rotations have no tests',
  ['stringifier.py', 'rotate.py', 'tile.py', 'direction.py'], [('text', 'stringifier.py encode, decode'), ('transformations', 'rotate.py Operation, tile.py rotate_90, flip_x')], ['stringifier, rotate'])

p('C13', 'Network files: creation, flipping and reading give correct balancers',
  'A created network of any size has that many inputs and outputs and balances them whichever way its equal-coloured belts are joined; flipping reverses every node and the order and undoes itself; writing then reading a network returns it, ignoring comments and blank lines and rejecting malformed lines; every shipped network has the inputs and outputs its name says and balances.',
  ['inputs', 'configurations'], 'all network sizes, all wirings of equal colours, all networks', 'no test looks at networks beyond solving shipped ones',
  ['network.py'], [('construction', 'network.py create_benes_network'), ('file format', 'network.py open_network, save_network'), ('flip', 'network.py flip_network')], ['network create / flip', 'networks/'])

p('C14', 'Parsing a layout recovers the network it implements',
  'Reading the network out of any valid layout gives one node per splitter and connects two splitters exactly when a run of belts and undergrounds, or direct contact, leads from the one to the other '
  '(the two outputs of a splitter are interchangeable and share a colour), leaves unconnected sides empty, and merges what enters the layout into one input colour and what leaves it into one output colour; '
  'a splitter side at the very edge counts as connected to the outside only on request.',
  ['inputs'], 'all layouts', 'parsing is not tested', ['network.py'], [('tracing', 'network.py parse_network'), ('normalisation', 'network.py tidy_network, fix_colours')], ['network parse'])

p('C15', 'The optimal search returns an optimum under every completion order',
  'For every true answer of the solver and every order in which solves finish, the search never asks for a size already decided by known results, asks only for the smallest undecided candidate of its objective, terminates, and what is then reported is a smallest existing balancer for the objective and underground limit; '
  'what is not known to be optimal is only reported on request.',
  ['schedules', 'histories', 'inputs'], 'all monotone existence relations, completion orders, stored databases, objectives', 'no test touches the search',
  ['calculate_optimal.py'], [('candidate order', 'calculate_optimal.py LengthObjective, AreaObjective'), ('deduction', 'calculate_optimal.py NetworkSolutionStore')], ['solves requested', 'calculate_optimal query'],
  [('known results', 'existence facts and layouts per network', 'calculate_optimal.py NetworkSolutionStore')])

p('C16', 'The optimal-balancer database survives crashes without losing results',
  'At every instant, including a crash or failed write at any point, the database file is absent or holds a complete set of results containing, for the networks in use, everything that was saved before; a result is saved before the next question about the same network is asked, a restarted search resumes from what is saved, a database that cannot be read is an error and stays as it is, a solver failure is never stored as a result, and merging or cleaning stored facts never changes what is known.',
  ['crash_points', 'fault_sequences', 'histories'], 'all crash points, restarts, sequences of results', 'persistence is not tested',
  ['calculate_optimal.py'], [('saving', 'calculate_optimal.py save_progress'), ('loading', 'calculate_optimal.py from_json, to_json, clean')], ['the database file'],
  [('database file', 'durable results', '--database')])

p('C17', 'No solver back end can turn a failure into a verdict',
  'For every built-in, command-line and library solver, a layout is printed only from a complete satisfying answer and "no layout" concluded only from an explicit unsatisfiable answer; crashes, unknown or interrupted results and malformed or cut off output are errors (values that a solver closes properly are believed), the formula handed over is exactly the generated one, and back ends agree.',
  ['fault_sequences', 'inputs', 'histories'], 'all solver outputs and termination behaviours', 'tests use one built-in solver that always answers',
  ['template.py', 'ipasir.py'], [('command solver', 'template.py run_command_solver'), ('library solver', 'ipasir.py'), ('solve loop', 'template.py BaseGrid.solve, itersolve')], ['generator output and exit with cmd: and lib: solvers'])

p('C18', 'Blueprint books keep every blueprint, in order and unchanged',
  'Packing blueprints into a book and unpacking it returns the same blueprints in the same order, each numbered by its position, with the label given to the book and the inputs unmodified.',
  ['inputs', 'histories'], 'all lists of blueprints and labels', 'books are not tested', ['blueprint_book.py', 'blueprint.py'], [('pack', 'blueprint_book.py pack_book'), ('unpack', 'blueprint_book.py unpack_book')], ['blueprint_book pack / unpack'])

p('C19', 'The viewer shows, steps through and saves exactly the layouts it is given',
  'The viewer shows the layout at hand tile by tile (each with the sprite of its kind, direction and animation frame, in the place and colour of its cell, buildings above belts; underground connections and attributes on request), in a window of the size asked for; '
  'the keys step forward and back through the layouts in the order they arrive, reading the next one only when it is needed and wrapping around at the end of the input; exporting prints the blueprint of the layout at hand, saving writes each of its frames once, in order, to the file of its number; '
  'exporting everything saves every layout once, in order, and then ends.',
  ['inputs', 'histories', 'configurations'], 'all layouts, key sequences and options', 'the viewer is not tested', ['render.py', 'tilemaps.py', 'blueprint.py'],
  [('main loop', 'render.py main'), ('pictures', 'render.py render_tile, render_solution, render_attributes; tilemaps.py Tilemap'), ('saving', 'render.py export_video')], ['what is drawn, printed, read and saved by render'])

p('C20', 'The drawing of a network shows exactly its splitters and belts',
  'Drawing a network shows one unlabelled box per splitter; a belt of a colour is drawn from one splitter to another exactly when the first gives and the second takes that colour, the input colour comes from outside to every splitter that takes it, '
  'the output colour goes outside from every splitter that gives it, and nothing else is drawn; the picture is written to exactly the requested file.',
  ['inputs'], 'all networks with one input and one output colour, including those that feed back', 'drawing is not tested', ['network.py'], [('drawing', 'network.py plot'), ('command', 'network.py main (render)')], ['network render'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
