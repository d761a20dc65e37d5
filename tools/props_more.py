prop(
    'C13', 'Goals are drawn in range and reward reaching them exactly once done',
    'A single-silicon goal is the position (in angstroms) of a non-silicon atom of the observed view whose distance from the silicon lies within the configured range; every such atom can be chosen and all are chosen equally often, and a view with no silicon or no atom in range is reported as an error.'
    ' At any later observation the goal is reached (terminal, with reward 0.9967 to the power of the seconds elapsed) exactly when the silicon is within half a bond length of the goal position, and otherwise gives no reward, is not terminal and asks for no truncation; neither choosing nor checking a goal changes the observation or moves the goal.',
    ['inputs', 'histories'], 'all observations (any view, atom order, number of silicon atoms), goal ranges and random states',
    'The tests choose from one view and check one reached and one missed goal; the boundary of the radius and the distribution of the choice are not examined.',
    ['goals.py'], [('choice and judgement', 'goals.py:SingleSiliconGoalReaching')], ['reset and get_reward_and_terminals', 'goal position'],
    'differential monitor against independent geometry, pooled uniformity tests of recorded choices',
    'thousands of random scenes; positions within 1e-3 angstroms of the radius are not judged',
    [('goal position', 'chosen place in the material frame', 'goals.py:SingleSiliconGoalReaching')],
)
prop(
    'C14', 'Actions become exactly one in-view beam control at the promised place',
    'Every action adapter turns an action into exactly one control inside the field of view: the direct adapter at the (clipped) action itself, the delta adapter at its previous position plus the action, clipped to the view, the relative adapter at the silicon plus the clipped action times its maximum distance in angstroms, and the material-frame relative adapter at the silicon plus the action taken as angstroms, the last two converted with the current, possibly elongated, view.'
    ' The dwell time is 1.5 s unless a range is given, in which case it grows linearly with the third component; the specification has the documented shape and bounds and all its actions are accepted; the relative adapters demand exactly one silicon; a reset makes the delta adapter start at a new random place, uniform over the view; neither the observation nor the action is modified.',
    ['inputs', 'histories'], 'all actions (inside and outside the bounds), views, silicon places, adapter settings and sequences of calls',
    'The tests use square unit views and a few actions.',
    ['action_adapters.py'], [('adapters', 'action_adapters.py')], ['get_action, action_spec, reset'],
    'differential monitor against the documented formulas, with history-dependent reference for the delta adapter',
    'thousands of random views and actions per adapter',
)
prop(
    'C15', 'Features describe the silicon, its neighbours and the goal faithfully',
    'Features computed from an observation match their specification in shape, type and bounds; the vector features are the silicon position (in the documented frame), the displacements to its three nearest neighbours and the displacement to the goal in angstroms, and the image features are the observed image (resized to the specified size) together with the displacement to the goal, all taken from the same silicon atom.'
    ' They depend neither on the order of the atoms nor, apart from the position itself, on where sheet and view lie; a view without silicon, a missing image or an unsuitable goal is reported as an error; the observation is not modified.',
    ['inputs'], 'all observations (any view, lattice orientation, atom order, number of silicon atoms, image) and goals',
    'The tests look at one or two observations.',
    ['feature_constructors.py'], [('feature constructors', 'feature_constructors.py')], ['get_features and observation_spec'],
    'differential monitor against independent geometry plus metamorphic (permutation, translation) monitors',
    'single-precision tolerances; equidistant neighbours are not told apart',
)
prop(
    'C16', 'Agents act within bounds and aim where their strategy says',
    'The uniform random agent draws every component independently and uniformly from the whole of its bounds, scalar or per dimension. The greedy agent aims at the neighbour of the silicon closest to the goal: its action is its aim point (given, or found by searching the rate function over the whole square at the configured resolution), turned so that the positive x direction points to that neighbour, plus its fixed offset.'
    ' The result turns with the surroundings, does not depend on the order of the neighbours, is reproducible for equal random states with noise of the configured size centred on the aim, and settings are not modified; an agent without any way to find its aim is refused. An agent around a saved model acts as the model does on the observation, at every step of an episode and in every mode.',
    ['inputs'], 'all surroundings of the silicon, goals, aim points, offsets, rate functions and random states',
    'The tests check a few hand-made surroundings.',
    ['agents/agent_lib.py', 'agents/tf_eval_agent.py', 'geometry.py'], [('agents', 'agents/agent_lib.py'), ('saved models', 'agents/tf_eval_agent.py')], ['actions returned by step'],
    'differential and metamorphic monitor against an independent construction; pooled distribution tests',
    'ties between neighbours are not judged; distribution tests at p < 1e-9',
)
prop(
    'C17', 'The microscope agent acts faithfully and logs everything exactly once',
    'For every history of resets, steps and flushes of the microscope agent, the wrapped agent receives one time step per observation with the features of that observation and the goal, the first after a reset being FIRST and later ones carrying the reward, discount and terminal flag of the goal; the controls returned are what the action adapter makes of the action, except that a view that has lost its silicon is answered by the rescan control without consulting the agent.'
    ' When logging is enabled it changes nothing of this behaviour, and after any sequence of flushes every step, every episode and every trajectory appears in the log exactly once, in order, with matching episode ids, goals and observations; leaving the logger through an exception writes nothing and passes the exception on.',
    ['histories', 'fault_sequences'], 'all histories of reset, step and flush, with lost silicon, reached goals, images and exceptions in between',
    'The tests log one short episode with one flush.',
    ['microscope_agent.py'], [('agent loop', 'microscope_agent.py:MicroscopeAgent'), ('log', 'microscope_agent.py:MicroscopeAgentLogger')], ['returned controls', 'time steps seen by the wrapped agent', 'the log files'],
    'offline exactly-once checker over the written log files against a model of the history, plus logged/unlogged twin runs',
    'hundreds of random histories in scratch directories; flushes are not interrupted midway',
    [('episode and step counters', 'identity of the records', 'microscope_agent.py:MicroscopeAgentLogger')],
)
prop(
    'C18', 'Evaluation runs each seed once and its results match what happened',
    'Evaluating an agent runs exactly one freshly seeded episode per seed of the suite, in order, with the agent in evaluation mode, until the episode ends or the total of simulated and agent time passes the timeout; each result reports the seed, whether the goal was reached, the reward and time summed over the steps, and the numbers of actions and transitions that really occurred, and it does not depend on which other seeds are in the suite.'
    ' Aggregates are the plain means and rates over the results, recorded videos (one readable video per seed) change no result, no observer or figure is left behind, and the predefined suites consist of distinct seeds.',
    ['histories', 'configurations'], 'all agents, environments, suites, timeouts, with and without videos',
    'The tests run one small suite with one agent.',
    ['eval_lib.py', 'plotting_utils.py'], [('evaluation', 'eval_lib.py:evaluate'), ('aggregation', 'eval_lib.py:aggregate_results')], ['evaluation results', 'calls made on the environment and the agent', 'video files'],
    'record-and-recompute monitor: all calls on environment and agent recorded, each result recomputed from the record',
    'random suites; timeouts are placed away from reachable times so that real agent time does not decide',
)
prop(
    'C19', 'Synthetic images show every atom at its place, with valid noise',
    'A clean image has the requested size, is normalised to a maximum of one and shows for each atom in or near the view a Gaussian spot at its place (north up), round whatever the shape of the view, with a brightness that grows with its atomic number; a label mask has the requested size, square or not, and labels exactly the pixels within the label radius of an atom with the class of that atom.'
    ' Each noise stage does what its name says (shifting rows as a whole, signal-dependent noise, extreme pixels, gamma, blur, additive noise of the given strength), keeps its input unchanged; the noisy image still shows the same scene, lies between zero and one, is finite and reproducible from its random state, and randomly drawn imaging parameters stay in their ranges.',
    ['inputs', 'configurations'], 'all scenes, views, image sizes, imaging parameters and random states',
    'The tests check the shape and range of one image and one square mask.',
    ['imaging.py'], [('image generation', 'imaging.py:generate_clean_image, generate_stem_image'), ('label masks', 'imaging.py:generate_grid_mask'), ('noise stages', 'imaging.py')], ['generated images and masks'],
    'differential monitor against an independent renderer plus statistical monitors of each noise stage',
    'pixel tolerance 1%; noise statistics at about 7 sigma',
)
prop(
    'C20', 'The drift estimate finds the displacement between two views',
    'For two overlapping views of one lattice of which the second is displaced by less than half the ambiguity length of the lattice beyond the initial guess, the estimated drift is the displacement (exactly for noiseless views, within the noise otherwise), whatever the order of the atoms, whether both sublattices are in view and whether outlying pairs are trimmed; spurious atoms and atoms at the other sublattice do not attract it.'
    ' The estimate never exceeds the configured limit and points in the right direction when limited, stays finite when no atoms pair up, and every call is independent of earlier calls and leaves its inputs unmodified; the pair-wise offsets it builds on lead from each atom to the nearest atom of the other set, those beyond the cutoff left out.',
    ['inputs', 'histories'], 'all pairs of views (orientation, crop, order, noise, missing and spurious atoms), displacements and options',
    'The tests align one or two small lattices.',
    ['alignment.py'], [('drift estimation', 'alignment.py:align_latest'), ('nearest offsets', 'alignment.py:get_offsets')], ['estimated drift'],
    'known-answer monitor (displacement by construction) plus permutation and repeat-call monitors',
    'displacements up to 1.1 angstroms beyond the guess; 60-300 atoms',
)
prop(
    'C21', 'Merging detections yields each atom once, at the mean of its detections',
    'Merging the detections of several frames (with either algorithm, weighted or not) yields one atom per well separated site, at the mean of the detections of that site and counted as often as it was detected, however detections are ordered and spread over frames, empty frames included; naive merging of any point cloud conserves the number of detections and their centroid, leaves isolated detections alone and ends with atoms further apart than the cutoff.'
    ' Atomic numbers are carried over from each atom to the atoms close to it, others keep the default, and no input is modified.',
    ['inputs'], 'all sets of frames and point clouds, cutoffs and weights',
    'The tests merge one hand-made pair of frames.',
    ['alignment.py'], [('merging', 'alignment.py:clique_merge, naive_merge'), ('atomic numbers', 'alignment.py:propagate_atomic_numbers')], ['merged positions, counts and atomic numbers'],
    'conservation monitor plus site-wise differential monitor on constructed detections',
    'conservation is not required of clique merging for overlapping groups',
)
prop(
    'C22', 'Sublattices of graphene are told apart in any orientation and view',
    'For a view of a graphene sheet in any orientation, offset, scale and atom order, with position noise and missing atoms, the classification gives bonded atoms opposite classes, so that the class is the sublattice; it does not depend on the order of the atoms, and the same fitted classifier gives atoms of other views of the sheet the same classes. The scale factor measured from positions is the scale of the sheet, and the positions are not modified.',
    ['inputs'], 'all views of a sheet, including orientations in which bond directions wrap around',
    'The tests classify a few small grids in one orientation.',
    ['alignment.py'], [('classification', 'alignment.py:get_lattice_clusterer, classify_lattice_types'), ('scale', 'alignment.py:get_graphene_scale_factor')], ['classes and scale factor'],
    'known-answer monitor over constructed lattices, with permutation and other-view monitors',
    'connected fragments without any three-bonded atom are not judged',
)
prop(
    'C23', 'Aligning a trajectory removes drift and changes nothing else',
    'Fed with successive views of a drifting sheet, the grid aligner reports for each view the drift of that view, so that errors do not build up, and returns (when merging is on) a grid with every recently seen site once, the silicon where it was last seen; a reset makes it forget everything.'
    ' Aligning a trajectory corrects the field of view of each observation by the drift found for it, pass after pass, and keeps controls, times, images, order and, unless relabelling was asked for, grids; the trajectory given is not modified, and with images and a perfect detector, misreported views are recovered within a quarter angstrom. The alignment script aligns and writes every trajectory of its source, a file or a directory, once.',
    ['histories', 'configurations'], 'all drifting sequences (missed atoms, hopping silicon, resets), aligner options, and sources of trajectories',
    'The tests align two-step sequences of one lattice, and not all of those pass at the base commit.',
    ['alignment.py', 'pipeline/align_trajectories.py'], [('grid aligner', 'alignment.py:IterativeAlignmentFiltering'), ('image aligner', 'alignment.py:ImageAligner'), ('trajectory bookkeeping', 'pipeline/align_trajectories.py:do_alignment')], ['drifts and grids per step', 'aligned trajectories and files'],
    'trace checker over aligned sequences with drift known by construction, scripted-aligner bookkeeping monitor, end-to-end runs with a stand-in model',
    'drift per step below 0.9 angstroms; the trained networks are replaced by perfect stand-ins',
    [('history', 'past views and accumulated atoms', 'alignment.py:IterativeAlignmentFiltering, ImageAligner')],
)
prop(
    'C24', 'Earlier images are registered with the current view',
    'Cropping an image to another square field of view keeps its size and puts every pixel where the same place of the material lies in the new view, filling places outside the old view with the padding value; the same view gives the same image, and the image given is not modified.'
    ' The image aligner hands its model a stack whose newest image is the current one, of whatever range, normalised (and equalised, unless that is turned off), whose earlier images are registered to the current view at their distance back in the history, and whose unused part is empty; it returns the drift and a label mask that is a probability distribution per pixel.'
    ' A second stage of alignment is handed the atoms where the first has found them and corrects drift and atoms; if it fails, the result of the first stage stands and it starts afresh.',
    ['inputs', 'histories'], 'all images, pairs of square views (identical, overlapping, disjoint, zoomed), and histories of images',
    'The tests do not exercise the registration of images.',
    ['alignment.py'], [('registration', 'alignment.py:pad_and_crop_images_by_fov'), ('frame stack', 'alignment.py:ImageAligner.__call__')], ['registered images', 'the stack returned by an echoing stand-in model'],
    'known-answer monitor: pixel-wise comparison with the content at the same material place',
    'one to two pixels of rounding allowed; square views only, as the code documents',
    [('history', 'earlier images and their views', 'alignment.py:ImageAligner')],
)
prop(
    'C25', 'Every atom in a label mask is detected once, at its place',
    'Decoding a label mask or a model output yields for each separate disc exactly one atom at its centre, in microscope coordinates with north up and each axis normalised by its own side, with the species of its class, for any image size, number of atoms (also none, or only one species) and number type; atoms within the ignored edge are left out, and the mask or image is not modified.',
    ['inputs'], 'all label masks and images with separated discs, square and elongated, and model confidences',
    'The tests do not decode masks.',
    ['alignment.py', 'atom_detector.py'], [('mask decoding', 'alignment.py:ImageAligner.process_detection_predictions'), ('detector', 'atom_detector.py:AtomDetector')], ['detected grids'],
    'known-answer monitor over drawn masks and stand-in models',
    'discs of at least 4 pixels radius; for the detector the model is certain of silicon',
)
prop(
    'C26', 'Recorded trajectories become exactly the usable training samples',
    'Every pair of successive observations of a trajectory, and nothing else, becomes one transition holding the grids, views and images of both, in order, with the controls of the first observation or, on request, of the second; the trajectories are not modified.'
    ' A transition becomes a data point, in order, exactly if it has one control and one silicon before and after, the silicon has exactly three neighbours within two angstroms (and no near-equal fourth), is still among the four atoms closest to its old place, and those atoms moved by no more than the cutoff on average; all others, however few atoms they have, are left out without failing. The data point names the old site closest to the silicon afterwards (0 for its own, else counted counter-clockwise from the neighbour closest to the beam), the beam relative to the silicon in angstroms in the frame in which that neighbour lies to the right, and the time, current and voltage of the control. Stacking keeps samples together, with inputs in the order current, voltage, time.',
    ['inputs', 'histories'], 'all trajectories and transitions (orientation, drift, noise, views, atom orders, any exclusion) and option combinations',
    'No test exercises this conversion.',
    ['pipeline/trajectories_to_transitions.py', 'pipeline/train_rate_learner.py', 'rate_learning/data_utils.py'],
    [('pairs of observations', 'pipeline/trajectories_to_transitions.py:trajectories_to_transitions'), ('data points', 'pipeline/train_rate_learner.py:transitions_to_datapoints'), ('stacking', 'pipeline/train_rate_learner.py:stack_data')],
    ['transitions, data points, stacked arrays, written records'],
    'known-answer monitor over scenes with constructed outcome, and differential monitor of the documented exclusions',
    'thousands of scenes; not within 1e-6 of a threshold',
)
prop(
    'C27', 'Training data respects the symmetry of the lattice',
    'Augmentation replaces a data set by its orbit under the rotations (and, for three states, reflections) of the neighbours: each sample occurs once per symmetry, its beam position, the neighbour it moved to and the rates of the neighbours all turned or mirrored alike, its time and context unchanged, whatever the shape of the arrays and with or without context.'
    ' Standardising turns beam and neighbours as a whole so that the neighbour closest to the beam lies on the positive x axis and orders the neighbours counter-clockwise from it; the result does not depend on orientation and order. Synthetic data follows the model it claims: in the prior mode the rate of each neighbour is the prior density seen from that neighbour, outcomes occur with the probabilities the rates and times imply, and equal seeds give equal data.',
    ['inputs'], 'all data sets, numbers of states, surroundings of a silicon and seeds',
    'The tests check shapes and counts, not that position, outcome and rates transform together.',
    ['rate_learning/data_utils.py', 'geometry.py'],
    [('augmentation', 'rate_learning/data_utils.py:augment_data'), ('canonical frame', 'rate_learning/data_utils.py:standardize_beam_and_neighbors'), ('synthetic data', 'rate_learning/data_utils.py:generate_synthetic_data')],
    ['returned arrays'],
    'differential monitor against an independent group action, metamorphic monitor, pooled distribution tests',
    'single precision; distribution tests at p < 1e-9',
)
prop(
    'C28', 'Bootstrapped and split data sets hold whole, separate samples',
    'Bootstrapping draws as many samples as the data has, uniformly with replacement, and tests on exactly the samples not drawn; splitting partitions the data in the requested proportion; in both, the parts of a sample stay together and equal keys give equal sets, for data of any size including a single sample.'
    ' The sets made for an ensemble give every model its own draw, all symmetric copies of a sample are on the same side (so that no model is tested on what it trains on), nothing is lost or repeated beyond that except that tests are cut to a common length, and the network input is the context followed by the beam position, or the position alone without context; the data given is not modified.',
    ['inputs', 'configurations'], 'all data sets (any size, optional context), keys, numbers of models and options',
    'The tests look at the sizes for one data set of a thousand samples.',
    ['rate_learning/data_utils.py', 'rate_learning/learn_rates.py'],
    [('bootstrap and split', 'rate_learning/data_utils.py:bootstrap_dataset, split_dataset'), ('sets of an ensemble', 'rate_learning/learn_rates.py:create_dataset_splits')],
    ['returned data sets, traced through tagged samples'],
    'conservation monitor: every produced row is traced to the sample it came from',
    'hundreds of data sets and option combinations; uniformity at p < 1e-9',
)
prop(
    'C29', 'Rate models are trained on the likelihood of their own samples',
    'The loss of a batch is the mean over its samples of the weighted negative log likelihood of that sample alone (moved or stayed under an exponential waiting time, and which neighbour under the softmax of the preferences), whether states and times come as vectors or columns, and the rates reported with it are total rate times softmax.'
    ' In an epoch the network is updated with each sample at most once, in full batches, in an order that depends on the key; a training run does so for every epoch, each in an order of its own, reports metrics of the current model on training and test data without changing it, is reproducible from its key, and the models of an ensemble are independent. The distillation loss is the mean squared difference between the per-neighbour rates of the student and the mean rates of the ensemble, on data drawn with the given mean and scale.',
    ['inputs', 'histories'], 'all batches, data sets, weights, keys and ensembles',
    'The tests check that training returns something.',
    ['rate_learning/learn_rates.py'],
    [('loss', 'rate_learning/learn_rates.py:batched_loss_fn'), ('training', 'rate_learning/learn_rates.py:train_epoch, train_model, train_multiple_models'), ('distillation', 'rate_learning/learn_rates.py:distill_loss')],
    ['losses, updated parameters and states of instrumented models'],
    'differential monitor of losses and gradients; conservation monitor: an instrumented model records the visits of each sample',
    'single precision; at least one full batch of data',
)
prop(
    'C30', 'A learned predictor gives the same rates however it is used',
    'The rates an ensemble predicts are the mean of those of its models, finite and not negative, and depend on neither the other beams of a call nor the call. predict gives each listed neighbour the rate of the network at the beam position in angstroms relative to the silicon, seen from the neighbour closest to the beam, at the given (or default) voltage and current, so it turns with the surroundings, follows the order of the neighbours and can serve as the rate function of a simulator.'
    ' A saved model, a predictor restored from it and the predictor saved give the same rates, with or without fixed context, for fresh, trained, ensemble and distilled predictors, and settings survive saving. Trained on data with known rates, the predictor finds their maxima at the right neighbours.',
    ['inputs', 'configurations', 'histories'], 'all predictors (settings, fresh, trained, distilled), surroundings, beams and ways of saving',
    'The only test of the predictor is skipped as flaky.',
    ['rate_learning/learn_rates.py'],
    [('application', 'rate_learning/learn_rates.py:LearnedTransitionRatePredictor.apply_model'), ('prediction', 'rate_learning/learn_rates.py:LearnedTransitionRatePredictor.predict'), ('saving', 'rate_learning/learn_rates.py:save, load, package_model')],
    ['rates, saved files'],
    'differential monitor between the ways of asking for rates, metamorphic monitor, round-trip monitor',
    'rates compared to 1e-3 relative in single precision; small networks',
    [('parameters and batch statistics', 'what a predictor has learned', 'rate_learning/learn_rates.py:LearnedTransitionRatePredictor')],
)
prop(
    'C34', 'The training script turns recorded hops into a model predicting them',
    'For every type of learner it offers, with or without voltage and current as inputs, from one record file or a directory, under either labelling convention and with or without distillation and plots, the training script completes and writes its models and metrics; the saved network is the trained one at the median context, the saved ensemble averages its members, and loaded again they predict, around any real lattice, the hop that the records show most for such a beam, with the right handedness.'
    ' Accuracies reported for a trained classifier are its accuracies on the training and the testing part. Plots of transitions and of the data set show atoms, beam, silicon and outcome where they are, and are saved and shown as asked.'
    ' Contour plots evaluate the given rate function on the whole grid with the fixed context, for any number of points, and report its largest rates.',
    ['configurations', 'inputs'], 'all learner types and options, and sources of recorded transitions',
    'No test runs the training script.',
    ['pipeline/train_rate_learner.py', 'rate_learning/learn_rates.py', 'rate_learning/data_utils.py'],
    [('script', 'pipeline/train_rate_learner.py:main'), ('learners', 'pipeline/train_rate_learner.py:get_sklearn_classifier'), ('contours', 'rate_learning/learn_rates.py:visualize_rates')],
    ['written files, loaded models'],
    'end-to-end known-answer monitor: records with a known rule in, predictions of the loaded model out',
    'small data sets and models; distillation with fewer steps',
)
prop(
    'C31', 'Event logs, replay videos and rate plots show what happened',
    'An event observer holds exactly the reset, controls, transitions, images and renderings reported since the last reset, in order and with the values reported, and starts afresh at a reset.'
    ' The replay video has one frame for every control and one for the end: each shows the atoms, field of view, goal, beam position, last image and truncated clock (minutes:seconds:hundredths) as they were just before that control, on the whole sheet and in coordinates of the view, and leaves log and open figures alone. A rendered frame of the environment is a picture of the current observation: atoms, goal and last beam position in coordinates of the view.'
    ' The rate plots evaluate the rate function on the documented line, circle or raster around the silicon, show the rates it returned against the right neighbour, and refuse a grid without a silicon.',
    ['histories', 'inputs'], 'all histories of the simulator, durations, sheets and rate functions',
    'The tests build one video and check its type; no test looks at a frame or calls a rate plot.',
    ['simulator_observers.py', 'plotting_utils.py'],
    [('event log', 'simulator_observers.py:EventObserver'), ('video', 'plotting_utils.py:generate_video_from_simulator_events'), ('clock', 'plotting_utils.py:format_timedelta'), ('rate plots', 'plotting_utils.py:plot_rate_function3, plot_rate_along_neighbor_vector3, plot_rate_along_arc3')],
    ['event log', 'artists of the axes when a frame is handed to the writer', 'arguments of the rate function'],
    'offline checker of the log and of every drawn frame against an independently recorded trace of the same run; spy on the rate function',
    'drawn artists, not pixels',
)
prop(
    'C32', 'Cached model weights are complete or absent, whatever interrupts them',
    'After any crash or error while the weights of an image aligner, an atom detector or a pretrained agent are fetched and unpacked — at any file-system operation, in the middle of a file, with a broken, truncated, corrupted, wrong or refused source, several times in a row — no use ever loads an incomplete model, failures are reported, and the next undisturbed use loads exactly the model of the archive.'
    ' A complete cached model is used without its source, until a reload is asked for; a reload replaces it as a whole, or leaves a complete one if it is interrupted. A process that uses the cache while another one does, whatever the other is about to do, loads the complete model it asked for or reports a failure, and so does not disturb later uses.',
    ['crash_points', 'fault_sequences', 'schedules'], 'all points of failure of every user of the weights cache, sequences of them, and all points at which a second process can come between',
    'No test extracts a model, let alone crashes while doing so.',
    ['io.py', 'alignment.py', 'atom_detector.py', 'experiments/registry.py'],
    [('extraction', 'io.py:extract_model'), ('aligner', 'alignment.py:ImageAligner.from_path'), ('detector', 'atom_detector.py:AtomDetector.from_url'), ('agents', 'experiments/registry.py:_TfAgentCreator')],
    ['loaded files', 'cache directories', 'requests for the source'],
    'fault injection at every file-system operation (audit hooks, file size limits, a fake server) of forked processes; oracle on what is loaded afterwards',
    'two processes, one within a single pause of the other; process crashes, not power failures',
    [('model_weights directories', 'extracted models, shared by all later runs', 'io.py:extract_model')],
)
prop(
    'C33', 'Registered experiments are what their names say, and independent',
    'Every experiment in the registry can be created by name and used: its actions become one beam control with the documented range of dwell times and reach (or place in the view), its features have their documented form and fit its observation spec, its simulator uses the named rates and two-second images, its random agents act within the action spec, its greedy agents put the beam at the named place relative to the neighbour nearest to the goal, and its learned agents act as the published model of their name says about what they observe.'
    ' Objects are made afresh on each use, so environments and agents of one experiment do not influence each other. Registering a name makes it available, never changes an existing one, and unknown names are refused. The evaluation script evaluates the named experiment on the named suite once and reports the averages of the results.',
    ['configurations', 'histories'], 'all registered experiments, and all sequences of registrations and look-ups',
    'The tests look up three names; no test builds, let alone runs, the others.',
    ['experiments/registry.py', 'experiments/experiments.py', 'eval.py', 'run_helpers.py'],
    [('registry', 'experiments/registry.py:create_microscope_experiment, create_train_experiment, create_eval_experiment, register_eval_experiment'), ('construction', 'run_helpers.py:create_putting_dune_env'), ('script', 'eval.py:main')],
    ['controls, features, times and rewards at the interfaces', 'log lines of the script'],
    'monitor at the simulator interface against a table of the experiments; differential runs with parts made by hand and with interleaved instances; model-based monitor of the registry',
    'pretrained weights are not available offline: only adapters and simulators of those experiments',
    [('evaluation experiments', 'table of names', 'experiments/registry.py:register_eval_experiment')],
)
prop(
    'C35', 'Networks train, resume and export as configured and reported',
    'Training a detection, image alignment or graph alignment network takes exactly the configured number of epochs of batches of the configured size; each step descends the stated loss, and the metrics it writes are those of the outputs of the model on the batches shown.'
    ' Interrupted at any batch, any number of times, and started again, training ends with every epoch counted once and reports and checkpoints the state it continued; the checkpoint kept as best is the one with the best evaluation metric.'
    ' Networks map inputs to outputs of the documented form, graph networks join exactly the pairs of atoms of one state within the cutoff, follow renumbered atoms and ignore a common shift of the history. An exported model, loaded the way aligners and detectors load one, computes the checkpointed network. Data sets hand out resized images with the masks and drifts that belong to them.',
    ['inputs', 'crash_points', 'histories'], 'all batches, sizes and configurations, and all sequences of interruptions of training',
    'The repository has no test of any training script, network, data set transform or exporter.',
    ['atom_detection/dataset.py', 'atom_detection/model.py', 'atom_detection/train.py', 'atom_detection/save_model.py', 'image_alignment/dataset.py', 'image_alignment/model.py', 'image_alignment/train.py', 'image_alignment/save_model.py', 'graph_alignment/dataset.py', 'graph_alignment/model.py', 'graph_alignment/train.py'],
    [('steps', 'image_alignment/train.py:train_step, eval_step'), ('resuming', 'graph_alignment/train.py:main'), ('graph network', 'graph_alignment/model.py'), ('export', 'atom_detection/save_model.py:main')],
    ['parameters and metrics after each step', 'written metrics', 'checkpoints on disk', 'exported files, as loaded by AtomDetector and ImageAligner'],
    'independent re-computation of losses, gradients and metrics on each step; offline checker of the log of a run (epochs, batches, metrics, checkpoints) with exceptions injected at batches; differential runs of exported models',
    'small networks and data; the installed orbax runs with a jax.tree shim; interruptions are exceptions at a batch, not kills; the distance metric local_error is not judged',
    [('checkpoint directory', 'state to continue from, and the best one', 'atom_detection/train.py:main')],
)
prop(
    'C36', 'Recordings of the microscope are uploaded as what was recorded',
    'Every recording in a tree of directories is uploaded exactly once, under a name of its own, as one trajectory with one observation per recorded frame: its image, its atoms in coordinates of the view with silicon exactly at the dopants, a view that moves by the recorded pixel shifts from the first frame on, the recorded beam position (in the frame that later stages expect) and dwell time if there were any, and dwell plus imaging time as elapsed time.'
    ' Padding is cut, coordinates of coarser label images are scaled, recordings that lack the readout time are skipped with a message without stopping the others, and a directory without recordings is an error.',
    ['inputs', 'configurations'], 'all recordings and directory trees',
    'The repository has no test of the upload script.',
    ['pipeline/upload_microscope_data.py', 'microscope_utils.py'],
    [('loading', 'pipeline/upload_microscope_data.py:load_dataset'), ('conversion', 'pipeline/upload_microscope_data.py:convert_dataset_to_proto'), ('upload', 'pipeline/upload_microscope_data.py:main')],
    ['converted trajectories', 'uploaded blobs, read back'],
    'known-answer monitor: recordings generated from a known history, compared with what arrives at a stand-in for the storage service',
    'constant field of view, square images; stand-ins for riegeli and the storage service',
)
