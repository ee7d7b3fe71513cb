"""Writes MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = 'TLA+ specification explored by TLC; every layout TLC builds is replayed into the generator\'s constraints (exact set comparison)'
T = {
 'C01': ('TLA+ belt rules; layouts printed by every generator are judged by TLC', 'Printed layouts of all five generators, sizes and options listed in the check, judged one by one by BeltRules.tla; printed raw fields compared with the printed tile.'),
 'C02': (ENUM, 'Exhaustive for the configurations listed (all axis modes, sides, lengths on small grids and strips); wider grids by layouts judged by TLC and by the constraints alike.'),
 'C03': (ENUM + '; printed, changed and randomly drawn layouts judged by TLC and the constraints alike', 'Exhaustive for small grids; judged samples for larger balancers and for networks read out of arbitrary layouts.'),
 'C04': (ENUM, 'Exhaustive for the option combinations and sizes listed, with partial layouts.'),
 'C05': ('TLA+ specification explored by TLC; the printed --all output of every generator is compared with the set TLC finds, with multiplicity', 'Complete output streams on small sizes for every generator and several solvers.'),
 'C06': ('TLA+ flow specification checked by TLC on printed layouts and on exhaustively built small ones', 'Exact on small sizes, printed larger balancers judged.'),
 'C07': (ENUM, 'Exhaustive for small interchanges; larger ones judged.'),
 'C08': (ENUM + '; larger blocks and their images judged', 'Exhaustive for 100+ option and size combinations; larger blocks sampled, images under shifts and symmetries must be admitted.'),
 'C09': ('TLA+ pattern specification; TLC lists every instance of each pattern and the rule\'s clauses are shown equivalent to them over all layouts (SAT)', 'All layouts, not samples, for grids up to 6x5.'),
 'C10': ('TLA+ arithmetic specification; TLC tabulates each encoding\'s meaning and the clauses must have exactly these models', 'Exhaustive over the operand widths listed.'),
 'C11': ('TLA+ blueprint specification; TLC behaviours (layouts, entity lists, maps) are replayed into the exporter and importer', 'Layouts enumerated and drawn; every small entity map.'),
 'C12': ('TLA+ transformation specification; every tile and TLC-generated layouts and operation sequences replayed into the code', 'Exhaustive over tiles and operation sequences up to the length listed.'),
 'C13': ('TLA+ network specification; TLC checks the balance of every produced and shipped network and replays files', 'All shipped networks, all created sizes listed, file variants.'),
 'C14': ('TLA+ run-tracing specification; TLC reads networks out of layouts and the parser must agree', 'Enumerated small layouts and drawn larger ones.'),
 'C15': ('TLA+ state machine of the optimal search explored by TLC; its behaviours are replayed through the real command with a scripted solver pool', 'All ground truths and completion orders of the small models; sampled behaviours of larger ones.'),
 'C16': ('TLA+ model of saving with crashes and write failures; every crash point replayed against the real command in a scratch directory', 'Every file operation of a save is a crash and a failure point.'),
 'C17': ('TLA+ model of the solver protocol; TLC enumerates solver transcripts which scripted solvers replay to the real back ends', 'All transcripts up to the length listed for command and library solvers.'),
 'C19': ('TLA+ model of the viewer (model-checked for all key histories) and of pictures; recorded runs of the real viewer are checked by TLC step by step, and every distinct picture piece by piece', 'Model: every history of up to 4 keys, 3 layouts; recordings: 70 runs with drawn layouts, keys and options.'),
 'C20': ('TLA+ specification of the drawing; TLC enumerates networks and judges the graph each is drawn as', 'Every network of 2 splitters and 3 colours (thorough: 4 colours, or 3 splitters and 2 colours), all shipped ones, drawn larger ones; some through the real dot.'),
 'C18': ('TLA+ specification of packing and unpacking; TLC sequences replayed through the real command', 'All sequences up to the length listed.'),
}
checks, na = [], []
for pid, (tech, note) in T.items():
    f = 'harness/%s.py' % pid.lower()
    if os.path.exists(os.path.join(HERE, f)):
        checks.append({'property': pid, 'quick_cmd': '/opt/venv/bin/python ' + f, 'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python ' + f, 'technique': tech, 'level': 'model_checking', 'level_note': note,
                       'evidence_file': 'evidence/%s.json' % pid})
    else:
        na.append({'property': pid, 'reason': 'the check is still being built'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python harness/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Specification language: TLA+ with TLC (spec/). No hooks in /repo: the code is observed through its command lines and public modules.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
