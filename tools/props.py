"""The single source of properties.jsonl and MANIFEST.json.

Run `python3 tools/props.py` after editing; both files are committed.
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'putting_dune/'
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
  assert len(title) <= 80, title
  PROPS.append(dict(
      rec=dict(
          id=pid, title=title, statement=statement,
          quantifier=dict(over=over, text=text), why_tests_cant=why,
          anchors=dict(
              files=[P + f for f in files],
              mechanism=[dict(name=n, where=P + w) for n, w in mech],
              state=[dict(name=n, meaning=m, where=P + w) for n, m, w in state],
              observe_at=observe, hook_needed=None,
          ),
      ),
      technique=technique, note=note,
  ))


prop(
    'C01', 'Microscope and material frames convert consistently and losslessly',
    'For every field of view, the conversion from microscope to material coordinates maps the unit square linearly onto the field of view (lower-left corner to the origin corner, each axis scaled by its own size in angstroms) and the opposite conversion is its inverse, identically for points, coordinate arrays of every accepted shape, atom grids and beam controls, and it leaves atom species and the settings of a control unchanged.'
    ' Shifting a field of view moves both corners by the shift, resizing and zooming keep its centre and set the size they promise, and the atoms reported inside given bounds are exactly the atoms within them (bounds included), expressed relative to those bounds with each atom keeping its species.',
    ['inputs'], 'all fields of view (square or not, any offset and size), operands of every accepted type and shape',
    'The tests convert a handful of points through one or two square fields of view; transposed axes, a lost offset or a type that is handled differently only show for other inputs.',
    ['microscope_utils.py', 'geometry.py', 'graphene.py'],
    [('frame conversions', 'microscope_utils.py:MicroscopeFieldOfView'), ('atoms in bounds', 'microscope_utils.py and graphene.py:get_atoms_in_bounds')],
    ['return values of the conversions'],
    'differential monitor: random hostile operands against an independent affine reference',
    'every conversion, shift, resize, zoom and bounds query checked on thousands of random fields of view and operands; sampling, not exhaustive',
)
prop(
    'C02', 'Every record type survives serialisation unchanged',
    'Atom grids, beam controls (with their dwell time, voltage and current), fields of view, observations (with optional image and label image), transitions, trajectories, drifts and labelled trajectories are equal to the original after being converted to a message, to bytes and back, up to rounding of numbers to single precision and of times to the microsecond; which optional images are present, and the shape, element type and content of images, are preserved.'
    ' A second round trip changes nothing, and applying a drift to an observation moves its atoms and view consistently while keeping everything else of it, images included.',
    ['inputs'], 'all instances: empty and large grids, any number of controls, sub-millisecond to multi-day times, images of any shape and element type, every combination of optional parts',
    'The tests round trip a few fixed instances; combinations of optional fields, fractional numbers and unusual element types are not sampled.',
    ['microscope_utils.py', 'putting_dune.proto'],
    [('to_proto and from_proto', 'microscope_utils.py'), ('drift application', 'microscope_utils.py:Drift')],
    ['objects before and after the round trip'],
    'round-trip monitor over random instances, with field-wise comparison after float32 rounding',
    'random instances of all record types; sampling',
)
prop(
    'C03', 'Record files return exactly the records written, in order',
    'Reading a record file yields exactly the sequence of records last written to that path, each once, in order and bit for bit, for raw bytes as well as typed records, whatever kind of iterable was written and whatever kind of path names the file; writing again replaces the content completely.'
    ' Several readers of one file are independent of each other, the records to write are drawn from their source once each, a path with an unknown extension is rejected, and a damaged file (altered, or cut within the body of a record) is reported instead of yielding other records.',
    ['inputs', 'histories'], 'all record sequences (0 to hundreds, empty to large records), all histories of writes and reads of a path, and all places of damage',
    'The tests write one short list once.',
    ['io.py'], [('write_records and read_records', 'io.py')], ['file contents as read back through the public reader'],
    'history monitor: model of the file as the last written sequence, records with unique ids',
    'random write/read histories in a scratch directory; no crash injection, since the writer promises no atomicity',
)
prop(
    'C04', 'Atom grids compare as sets of atoms and hash consistently',
    'Two atom grids are equal exactly when they contain the same atoms (the same species at the same places within the rounding tolerance) regardless of the order of the atoms; equality is reflexive and symmetric, and a moved atom, a changed species or a different number of atoms makes grids unequal.'
    ' Equal grids have equal hashes, so that grids behave correctly as members of sets and keys of dictionaries.',
    ['inputs'], 'all grids whose atoms are further apart than the tolerance, including empty ones',
    'The tests compare a few small grids.',
    ['microscope_utils.py'], [('__eq__ and __hash__', 'microscope_utils.py:AtomicGrid')], ['results of == and hash()'],
    'metamorphic monitor: permuted, perturbed and altered copies of random grids',
    'perturbations between 5e-4 and 2e-3 (the tolerance band) are not judged',
)
prop(
    'C05', 'Generated sheets are pristine, centred, randomly oriented, singly doped',
    'Every generated sheet is a perfect honeycomb lattice of atoms 1.42 angstroms apart, in which every interior atom has exactly three bonds at 120 degrees and the right number of atoms per area; the sheet has the requested size, is centred on the origin and consists of carbon except for exactly one silicon, which replaces the atom nearest to the centre.'
    ' Its orientation is drawn anew and uniformly at every reset, while the reference sheet without a random state is always the same.',
    ['inputs', 'histories'], 'all random states, sheet sizes and numbers of resets',
    'The tests look at one or two seeded sheets; neither the lattice of each atom nor the distribution over seeds is examined.',
    ['graphene.py'], [('sheet generation', 'graphene.py:generate_pristine_graphene'), ('doping', 'graphene.py:PristineSingleDopedGraphene.reset')], ['the public grid of the material'],
    'per-atom lattice monitor plus pooled distribution test of the orientation',
    'hundreds (quick) to thousands of sheets; orientation test at p < 1e-9',
)
prop(
    'C06', 'Irradiation conserves atoms and only lets the silicon hop to a neighbour',
    'Whatever the beam does, the set of atom positions never changes and there is always exactly one silicon atom; each transition exchanges the silicon with one of its three nearest neighbours, and only successors the rate model offers with a positive rate are ever taken.'
    ' Reported transition times ascend and lie within the dwell time, every change of state is reported to observers and the last report is the current state, states handed out earlier do not change, and a zero dwell time or all-zero rates change nothing.',
    ['histories', 'inputs'], 'all sequences of exposures, rate models and dwell times',
    'The tests apply a few controls with benign rates and look at the end state.',
    ['graphene.py'], [('kinetic Monte Carlo step', 'graphene.py:PristineSingleDopedGraphene.apply_control'), ('successor construction', 'graphene.py:PristineSingleSiGrRatePredictor')], ['observer notifications and the public grid'],
    'online conservation monitor over recorded transition events',
    'random histories under all rate models including zero, tiny and very large rates',
    [('grid', 'positions and species of all atoms', 'graphene.py:PristineSingleDopedGraphene')],
)
prop(
    'C07', 'Silicon hops follow the continuous-time law given by the rates',
    'For any rate model, the waiting time to the next transition is exponentially distributed with the total rate of the current state, the successor is chosen with probability proportional to its rate, and rates are re-evaluated after every transition for the new state and the beam position in use.'
    ' Consequently the number of transitions per exposure at constant rates is Poisson with mean rate times dwell time, and splitting an exposure in two does not change the law.',
    ['histories', 'inputs'], 'all rate tables, exposure sequences and random states',
    'A distribution cannot be settled by the one or two seeded draws the tests make.',
    ['graphene.py'], [('waiting time and branching', 'graphene.py:PristineSingleDopedGraphene.apply_control')], ['observer notifications (times and successor states)'],
    'offline statistical checker (Kolmogorov-Smirnov, chi-square, Poisson tests) over recorded transition logs with known rates',
    'tens of thousands of recorded transitions; every test at p < 1e-9, so small distortions are not excluded',
)
prop(
    'C08', 'Built-in rate models give the documented, symmetry-respecting rates',
    'Every built-in rate model returns exactly one successor per nearest neighbour of the silicon, being the grid with those two atoms exchanged, with finite non-negative rates that sum to the reported total; the rates equal the documented formulas (inverse-square, human prior, Gaussian mixture) evaluated in the canonical frame in which the respective neighbour lies in the positive x direction.'
    ' Rates do not depend on the order of the atoms and follow the sheet and beam under translation and rotation, the human prior peaks toward the neighbour it belongs to, and Gaussian mixtures survive writing and reading, are valid when sampled and report their true maximum.',
    ['inputs'], 'all doped lattice patches (rotation, offset, atom order), beam positions and mixture parameters',
    'The tests evaluate one canonical orientation.',
    ['graphene.py', 'geometry.py'], [('rate predictors', 'graphene.py:PristineSingleSiGrRatePredictor, HumanPriorRatePredictor, GaussianMixtureRateFunction'), ('angles and rotations', 'geometry.py')], ['successor states and rates'],
    'differential monitor against closed-form references plus metamorphic (rigid motion, permutation) monitors',
    'single-precision tolerance 2e-3 relative; random patches and beams',
)
prop(
    'C09', 'The simulator applies controls in order, once, and keeps exact time',
    'For every call of the simulator the observers see each given control applied once, in order, at its position converted from the field of view in force when the call was made and with its dwell time, voltage and current unchanged, followed by its transitions and finally by the imaging; moving the view takes a second image, and a rendered image is returned and reported exactly when it was asked for.'
    ' The elapsed time of an observation is the sum of the dwell times and of the durations of the images taken, and the observation lists the controls as given.'
    ' All observers hear the same, removed ones hear nothing, and use before the first reset is refused.',
    ['histories', 'inputs'], 'all sequences of resets and steps with any number of controls, dwell times, beam settings and observers',
    'The tests use one step with one or two controls and benign settings.',
    ['simulator.py', 'microscope_utils.py', 'graphene.py'], [('stepping', 'simulator.py:PuttingDuneSimulator.step_and_image'), ('observer fan-out', 'simulator.py')], ['observer interface', 'returned observations'],
    'online trace checker: grammar of events, clock accounting and control conversion over recorded observer events',
    'random multi-episode histories',
    [('_fov', 'the field of view in force', 'simulator.py')],
)
prop(
    'C10', 'Observations show exactly what is in view and the view follows the silicon',
    'The atoms of every observation are exactly the atoms of the material inside the reported field of view, with their species, in microscope coordinates, and exactly one of them is silicon, lying in the central half of the view.'
    ' A reset gives a square view of 15 to 30 angstroms centred on the silicon; within an episode the view keeps its size and moves only when the silicon has left the central half, after which it is centred on the silicon.',
    ['histories'], 'all histories of exposures, including those that drive the silicon out of the view',
    'The tests move the silicon in one or two scripted ways.',
    ['simulator.py', 'graphene.py', 'microscope_utils.py'], [('view tracking', 'simulator.py:step_and_image'), ('atoms in view', 'graphene.py:get_atoms_in_bounds')], ['returned observations against the public grid of the material'],
    'online monitor comparing every observation with the material state',
    'random histories with still, wandering and driven dopants',
)
prop(
    'C11', 'The environment follows the reinforcement-learning protocol exactly',
    'For every history of reset and step calls: an episode starts with a FIRST step (also when step is called before any reset or after the last step of an episode, in which case the action is ignored), continues with MID steps, and ends with a LAST step exactly when the goal is reached, the goal asks for truncation or the step limit is hit.'
    ' Each step applies its action to the simulator once, as converted by the action adapter; its observation matches the declared specification and is computed from the current microscope observation; the reward is zero except at the goal, where it is 0.9967 to the power of the seconds elapsed in the step and the discount is zero, while every other step has that power as its discount.'
    ' The step limit cuts episodes of any environment at that step and changes nothing else, and the wrappers pass everything else through.',
    ['histories', 'inputs'], 'all call histories, adapters, feature constructors, step limits, goals and actions (inside and outside the bounds)',
    'The tests run the generic protocol test and a few scripted steps; endings, restarts and their interplay with the step limit are hardly reached.',
    ['putting_dune_environment.py', 'run_helpers.py', 'goals.py', 'constants.py'], [('step and reset', 'putting_dune_environment.py:PuttingDuneEnvironment'), ('step limit', 'run_helpers.py:StepLimitWrapper')], ['returned time steps', 'observer interface', 'instrumented adapter and feature constructor'],
    'online reference state machine over recorded call histories',
    'thousands of calls over all adapters and features; image features on fewer histories',
)
prop(
    'C12', 'Seeded runs are reproducible and environments are isolated',
    'After seeding and resetting, the complete history of an environment (time steps, observations, goals, simulator events) is a function of the seed and the actions alone: it is the same on a fresh and on a used instance, with or without other environments running interleaved, additional observers, rendered frames or other users of the global random generator, which is neither read nor disturbed.'
    ' Different seeds start different episodes.',
    ['histories', 'schedules', 'configurations'], 'all seeds, action sequences, earlier histories and interleavings with other environments',
    'The tests compare at most one pair of fresh runs.',
    ['putting_dune_environment.py', 'simulator.py', 'graphene.py', 'action_adapters.py', 'goals.py', 'run_helpers.py'], [('seeding', 'putting_dune_environment.py:seed'), ('explicit generators', 'simulator.py, graphene.py, goals.py')], ['time steps, observations, observer events'],
    'offline checker: fingerprints of complete paired histories compared event by event',
    'hundreds of paired histories and random interleavings of two environments',
)

exec(open(os.path.join(ROOT, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'props_more.py')) else None


def main():
  have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, 'checks', p['rec']['id'].lower() + '.py'))]
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
    for p in have:
      fp.write(json.dumps(p['rec']) + '\n')
  checks = [
      dict(
          property=p['rec']['id'],
          quick_cmd=f'python3 run_check.py {p["rec"]["id"]} --tier quick',
          thorough_cmd=f'python3 run_check.py {p["rec"]["id"]} --tier thorough',
          evidence_file=f'evidence/{p["rec"]["id"]}.json',
          technique='runtime monitoring: ' + p['technique'],
          level='exploration', level_note=p['note'],
      )
      for p in have
  ]
  manifest = dict(version=1, setup_cmd='python3 tools/setup_check.py', checks=checks, not_applicable=[])
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
    json.dump(manifest, fp, indent=1)
    fp.write('\n')
  print(len(have), 'properties')


main()
