"""Writes properties.jsonl (single source of the property list)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'discs/samplers/'
M = 'discs/models/'
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
  a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
  if state:
    a['state'] = [{'name': n, 'meaning': m} for n, m in state]
  if observe:
    a['observe_at'] = observe
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=a))


p('C01', 'Gibbs-family samplers leave the target distribution invariant',
  'For every discrete target distribution, one step of the Gibbs, block Gibbs and Hamming-ball samplers maps a sample distributed exactly as the target to a sample distributed exactly as the target. This holds at every position of the site sweep, for every block size (dividing the number of sites or not), every number of categories and every sample shape.',
  ['inputs', 'configurations', 'histories'],
  'all states, all outcomes of all random draws of a step, all sweep positions, block sizes, shapes and category counts within the bound',
  'The tests run a few steps from one key and look at shapes; a biased kernel still produces plausible samples, and statistical tests only sample.',
  [S + 'gibbs.py', S + 'blockgibbs.py', S + 'hammingball.py'],
  [('site/block conditional sampling', S + 'gibbs.py, ' + S + 'blockgibbs.py'),
   ('auxiliary-ball draw then local conditional draw', S + 'hammingball.py')],
  [('index', 'sweep position kept in the sampler state')],
  ['step(): returned sample'])
p('C02', 'Random walk and Gibbs-with-gradient steps leave the target invariant',
  'For every discrete target, one step of the random-walk sampler or of the Gibbs-with-gradients sampler (binary fixed, binary adaptive, categorical) leaves the target distribution exactly invariant while its tuning state is held fixed. This holds for every flip count or radius, every balancing function, and, where a coordinate mask is honoured, masked coordinates never change.',
  ['inputs', 'configurations', 'histories'],
  'all states, all proposal outcomes, exact acceptance probabilities, all reachable radii, flip counts, balancing functions and masks within the bound',
  'Existing tests check shapes and that something changes; a wrong reverse-proposal term or acceptance rule is invisible to them.',
  [S + 'randomwalk.py', S + 'gwg.py', S + 'locallybalanced.py', 'discs/common/math_util.py'],
  [('proposal + Metropolis-Hastings correction', S + 'randomwalk.py, ' + S + 'gwg.py'),
   ('balancing functions', S + 'locallybalanced.py'), ('accept/reject', 'discs/common/math_util.py')],
  [('radius', 'adaptive number of flips')], ['step(): returned sample'])
p('C03', 'Path-auxiliary steps leave the target distribution invariant',
  'For every discrete target, one step of the path-auxiliary sampler leaves the target exactly invariant while its radius is held fixed, for adaptive and fixed path lengths, binary and multi-category variables, every balancing function, masked or unmasked coordinates (masked ones never change while the path is no longer than the number of unmasked ones), and for both the gradient approximation and the exact neighbourhood ratios of the local proposal.',
  ['inputs', 'configurations', 'histories'],
  'all states, all orderings of the without-replacement path draw (resolved on an exhaustive grid of the uniform cube), all new values, exact acceptance probabilities',
  'The path likelihood and its reversal are only exercised for shape by tests; order or value terms missing on one side pass.',
  [S + 'path_auxiliary.py', 'discs/common/math_util.py', S + 'locallybalanced.py'],
  [('forward path and its log-likelihood', S + 'path_auxiliary.py'),
   ('reverse path log-likelihood', S + 'path_auxiliary.py'),
   ('sampling without replacement', 'discs/common/math_util.py')],
  [('radius', 'path length')], ['step(): returned sample'])
p('C04', 'Langevin-style samplers (DLMC, DMALA) leave the target invariant',
  'For every discrete target, one step of the discrete Langevin samplers (both solvers, adaptive or fixed step size, binary and multi-category, every balancing function) leaves the target exactly invariant once the step-size state has been initialised and while it is held fixed; in the optimisation mode, where the step size is recomputed from the current sample, every step of a single chain is exactly invariant.',
  ['inputs', 'configurations', 'histories'],
  'all states, all proposal outcomes, exact acceptance probabilities, all step-size states reached by adaptation histories up to the bound',
  'Shape tests only; an asymmetric forward/backward probability only biases the long-run distribution.',
  [S + 'dlmc.py', S + 'dmala.py', S + 'locallybalanced.py', 'discs/common/math_util.py'],
  [('per-coordinate proposal probabilities', S + 'dlmc.py, ' + S + 'dmala.py'),
   ('Metropolis-Hastings correction', S + 'dlmc.py, ' + S + 'dmala.py')],
  [('log_tau', 'step size'), ('log_z', 'normaliser estimate')], ['step(): returned sample'])
p('C05', 'Every sampler can reach every state of the target',
  'From any starting state, each sampler in its shipped settings reaches every other state of a strictly positive target with positive probability: a chain of freshly initialised steps (a full sweep or more for sweeping samplers) connects all pairs of states, also when block sizes do not divide the number of sites.',
  ['inputs', 'configurations', 'histories'],
  'all ordered pairs of states, all draws, all sweep positions within the bound',
  'Reachability quantifies over all pairs of states; tests follow one short trajectory.',
  [S + 'gibbs.py', S + 'blockgibbs.py', S + 'hammingball.py', S + 'randomwalk.py', S + 'gwg.py', S + 'path_auxiliary.py', S + 'dlmc.py', S + 'dmala.py'],
  [('proposal support', S), ('sweep advance', S + 'gibbs.py, ' + S + 'blockgibbs.py, ' + S + 'hammingball.py')],
  [('index', 'sweep position')], ['step(): returned sample'])
p('C06', 'A step is a pure function that maps valid samples to valid samples',
  'A sampler step always returns integer samples of the same shape with every entry a valid category, and reports as acceptance the true mean probability that the proposals are accepted. It modifies neither the sample nor the sampler state it is given, keeps no hidden memory (repeating a call after any other calls gives the same result), and advances the step counter of the returned state by one.',
  ['inputs', 'histories', 'configurations'],
  'all states and draws of a step; all sequences of up to three calls on one sampler object',
  'Purity and closure are universally quantified over inputs and call histories; tests call step once with one state.',
  [S + 'abstractsampler.py', S + 'randomwalk.py', S + 'gibbs.py', S + 'blockgibbs.py', S + 'hammingball.py', S + 'gwg.py', S + 'path_auxiliary.py', S + 'dlmc.py', S + 'dmala.py', S + 'locallybalanced.py'],
  [('step/select/update of sampler state', S)], [('sampler state dict', 'counters and tuning values')],
  ['step(): returned sample, state and acceptance; caller-held arguments'])
p('C07', 'Chains in a batch do not influence one another',
  'Running several chains in one batch gives each chain exactly the transition it would have alone: for the same random draws its proposal, acceptance probability and next sample do not depend on the states of the other chains, apart from the tuning state that adaptive samplers share by design (held equal here; for the Langevin samplers after initialisation and outside the optimisation mode). No random draw or key is shared by two chains (except the Hamming-ball radius, drawn once per batch), and the same holds for several target models processed together and for compiled, vectorised or eager execution.',
  ['inputs', 'configurations'],
  'all joint states of two chains, all joint draws, all samplers and settings within the bound; eager, compiled and vectorised execution',
  'Tests never compare batched against single-chain behaviour; cross-chain leakage keeps shapes intact.',
  [S + 'gwg.py', S + 'path_auxiliary.py', S + 'dlmc.py', S + 'dmala.py', S + 'hammingball.py', S + 'blockgibbs.py', S + 'gibbs.py', S + 'randomwalk.py', 'discs/common/math_util.py'],
  [('batched proposal indexing', S), ('per-chain accept/reject', 'discs/common/math_util.py')], None,
  ['step(): per-chain samples'])
p('C08', 'Adaptation stays in range and moves toward the target acceptance rate',
  'Over every history of acceptances, adaptive samplers keep their tuning state finite and in range (at least one and at most all sites for the radius; a finite step size with at least one expected flip for the Langevin samplers), increase it when acceptance is above the target rate and decrease it when below (up to the bounds), and change nothing in non-adaptive mode.',
  ['histories', 'configurations'],
  'all sequences of acceptance outcomes (high, low, near target) and energy scales up to the depth bound, per adaptive sampler',
  'Only history-dependent corner cases (long runs of rejections at the bound) break it; tests take one or two steps.',
  [S + 'randomwalk.py', S + 'gwg.py', S + 'path_auxiliary.py', S + 'dlmc.py', S + 'dmala.py'],
  [('radius update', S + 'randomwalk.py, ' + S + 'gwg.py, ' + S + 'path_auxiliary.py'),
   ('step-size update', S + 'dlmc.py, ' + S + 'dmala.py')],
  [('radius', 'expected flips'), ('log_tau/log_z', 'Langevin step size')], ['returned sampler state'])
p('C09', 'The energy-evaluation counter equals the evaluations really made',
  'After any sequence of steps the counter of energy evaluations in the sampler state equals the number of times the target energy or its gradient was evaluated per chain (a value-and-gradient evaluation counts as two, a neighbourhood-ratio evaluation as what the model reports), for every sampler and setting. Efficiency figures normalised by that counter are therefore comparable across samplers.',
  ['histories', 'configurations'],
  'all samplers, block sizes, category counts and adaptive states, runs of several steps within the bound',
  'The counter only matters relative to the real number of calls, which tests do not observe.',
  [S + 'randomwalk.py', S + 'gibbs.py', S + 'blockgibbs.py', S + 'hammingball.py', S + 'gwg.py', S + 'path_auxiliary.py', S + 'dlmc.py', S + 'dmala.py'],
  [('counter update', S)], [('num_ll_calls', 'accumulated energy evaluations')], ['returned sampler state'])
p('C10', 'Classical model energies match their definition in every representation',
  'For the Bernoulli, categorical, Ising and Potts models the log-density of every sample equals its mathematical definition (fields plus nearest-neighbour couplings on the open lattice, each bond counted once), identically for integer, float and one-hot inputs and independently for each row of a batch. The reported gradient is the gradient of that log-density and generated parameters follow the configured coupling, field mean and spread.',
  ['inputs', 'configurations'],
  'all samples of all small shapes and category counts, all input representations, a grid of parameters',
  'Tests evaluate one or two samples in one representation.',
  [M + 'bernoulli.py', M + 'categorical.py', M + 'ising.py', M + 'potts.py'],
  [('energy', M), ('value and gradient', M), ('parameter generation', M)], None, ['forward, get_value_and_grad, make_init_params'])
p('C11', 'The factorial HMM energy equals its generative joint log-probability',
  'For binary and multi-state factorial hidden Markov models the log-density of every hidden configuration equals, up to one constant per parameter set, the joint log-probability of the generative process (initial distribution, row-stochastic transition matrix, Gaussian observations), for integer and one-hot (float) inputs and every combination of length, number of chains and number of states. Generated parameters are a valid instance of that process.',
  ['inputs', 'configurations'],
  'all hidden configurations for all small lengths, chain counts and category counts',
  'Shape coincidences (number of chains equal to number of states) and normalisation of the transition matrix are not exercised by tests.',
  [M + 'fhmm.py'], [('energy', M + 'fhmm.py'), ('generative process', M + 'fhmm.py')], None, ['forward, make_init_params'])
p('C12', 'RBM and image energy models are consistent with their joint distribution',
  'The restricted Boltzmann machine log-density of every visible configuration equals the log of the sum over hidden configurations of the joint weight, for binary and categorical visibles, with or without loaded parameters; for binary machines the hidden and visible conditionals match that joint and alternating them leaves the visible distribution invariant. The image energy model interpolates between its base distribution at temperature zero and the full model at temperature one, linearly in between.',
  ['inputs', 'configurations'],
  'all visible and hidden configurations of small machines, all draws of the block step, a grid of temperatures',
  'Tests do not compare against explicit marginalisation.',
  [M + 'rbm.py', M + 'resnet.py', M + 'deep_ebm.py', S + 'blockgibbs.py'],
  [('free energy', M + 'rbm.py'), ('conditionals', M + 'rbm.py'), ('temperature interpolation', M + 'resnet.py')], None,
  ['forward, step_h, step_v, get_init_samples'])
p('C13', 'Graph problem objectives equal the combinatorial objective of the graph',
  'For every graph loaded from the dataset files and every assignment, the evaluated objective is exactly the problem objective: cut weight; independent-set or clique size minus the penalty per violated pair; or minus the normalised or balance-penalised cut. Padding of nodes and edges to a common size never changes it, it does not depend on the annealing temperature, the log-density is it divided by temperature, and the best value over all assignments equals the true optimum of the graph.',
  ['inputs', 'configurations'],
  'all graphs up to the node bound, all assignments including padded positions, several paddings, temperatures and penalties',
  'Tests use one hand-made graph; padding and loader order need mixtures of graphs of different size.',
  [M + 'maxcut.py', M + 'mis.py', M + 'maxclique.py', M + 'normcut.py', M + 'comb_ebm.py', 'discs/graph_loader/', 'discs/common/utils.py'],
  [('graph to parameters', 'discs/common/utils.py, discs/graph_loader/'), ('objective and penalty', M)], None,
  ['evaluate, forward on parameters from the data iterator'])
p('C14', 'Neighbourhood log-ratios equal true energy differences',
  'For every model offering neighbourhood ratios and every sample, the returned log-ratio of each single-site change equals the difference of the log-densities, the accompanying log-density equals that of the sample, and the neighbour it constructs is the sample with exactly that site changed. Padding of nodes or edges does not disturb them.',
  ['inputs', 'configurations'],
  'all small graphs (mixed sizes, padded), all assignments, all neighbours, several temperatures and penalties',
  'Tests compare one graph without padding.',
  [M + 'maxcut.py', M + 'mis.py', M + 'bernoulli.py', M + 'normcut.py', M + 'comb_ebm.py', S + 'locallybalanced.py'],
  [('neighbourhood ratios', M), ('neighbour construction', M + 'comb_ebm.py')], None, ['logratio_in_neighborhood'])
p('C15', 'Every dataset instance is processed exactly once, in full batches',
  'Iterating a graph dataset yields every instance exactly once across batches and worker processes, keeps each instance with its own index and reference value, and completes the last batch with placeholder entries that are marked as such and have the same parameter layout as real ones. All batches have the requested size, all workers yield the same number of batches, and the advertised node, edge and instance maxima match the data.',
  ['inputs', 'configurations', 'schedules'],
  'all dataset sizes, batch sizes and process counts within the bound, every loader type',
  'Off-by-one and sharding defects need particular combinations of sizes; the tests have no data files.',
  ['discs/graph_loader/common.py', 'discs/graph_loader/maxcut_loader.py', 'discs/graph_loader/mis_loader.py', 'discs/graph_loader/maxclique_loader.py', 'discs/graph_loader/normcut_loader.py', 'discs/graph_loader/graph_gen.py'],
  [('sharded batching and padding', 'discs/graph_loader/common.py'), ('file readers', 'discs/graph_loader/')], None,
  ['get_iterator'])
p('C16', 'The SAT-to-independent-set conversion is faithful',
  'For every 3-CNF formula, the graph built from it has one vertex per literal occurrence, joined within a clause and between contradictory literals, so that its maximum independent set has as many vertices as the formula has clauses exactly when the formula is satisfiable, and in general equals the maximum number of simultaneously satisfiable clauses.',
  ['inputs'],
  'all 3-CNF formulas up to the clause and variable bound, read from DIMACS files',
  'No test covers it; a missing or extra conflict edge only changes the optimum on particular formulas.',
  ['discs/graph_loader/mis_loader.py'], [('formula to graph', 'discs/graph_loader/mis_loader.py')], None, ['loader graphs'])
p('C17', 'Annealing reports the best solution really visited, per instance',
  'In a combinatorial run, the saved trajectory of every instance is the running maximum, over the logged steps so far and all its chains, of objective over reference; the final best ratio and the saved best sample belong to that instance and attain that value. Placeholders never appear in the results, all batches of a multi-batch run are kept, the temperature follows the configured schedule at every step, every step uses its own random key, and results do not depend on how models or chains are spread over devices.',
  ['histories', 'configurations', 'schedules'],
  'all histories of objective values for all chains over a bounded run, all schedules, logging periods, burn-in splits, batchings and device layouts within the bound',
  'Needs whole runs with known values; the tests run no experiment.',
  ['discs/experiment/sampling.py', 'discs/common/experiment_saver.py', 'discs/evaluators/co_eval.py'],
  [('annealing loop', 'discs/experiment/sampling.py'), ('result file', 'discs/common/experiment_saver.py')], None,
  ['saved result files'])
p('C18', 'ESS results are computed from exactly the post-burn-in chain',
  'In a sampling run, the effective sample size is computed from exactly the samples after the burn-in fraction, each mapped to its distance (sum of absolute differences) from one fixed reference sample, averaged over all chains; it and, for the default burn-in of one half, its normalisations by steps, time and energy evaluations are written to the results table with the run settings. Saved sample trajectories contain the same chains at exactly the configured steps, every step uses its own random key, and results do not depend on the device layout.',
  ['histories', 'configurations', 'schedules'],
  'all small histories of samples for several chains, burn-in fractions, chain lengths, saving periods, device layouts',
  'Off-by-one windows or reshaping mix-ups still produce a plausible number.',
  ['discs/experiment/sampling.py', 'discs/evaluators/ess_eval.py', 'discs/common/experiment_saver.py'],
  [('burn-in and mixing loops', 'discs/experiment/sampling.py'), ('ESS', 'discs/evaluators/ess_eval.py'), ('CSV', 'discs/common/experiment_saver.py')], None,
  ['saved csv and pickle files'])
p('C19', 'Annealed importance sampling estimates the partition function correctly',
  'In an energy-model run, the reported log-partition estimate after each step is the log-mean over chains of the accumulated importance weights, where each weight adds the log-density difference between consecutive temperatures at the sample before it is moved. For every bounded history of samples the estimate matches that definition on any device layout, and its exact expectation over transitions equals the true ratio of partition functions.',
  ['histories', 'configurations', 'schedules'],
  'all histories of samples over a bounded annealing run; exact expectation over all transition outcomes',
  'An estimator off by one temperature or sample is only visible in expectation.',
  ['discs/experiment/sampling.py', 'discs/common/experiment_saver.py'],
  [('AIS loop', 'discs/experiment/sampling.py')], None, ['saved log-partition trajectory'])
p('C20', 'Text-infilling data never leaks the answers into the reference corpus',
  'Building the infilling dataset partitions each source corpus: every line is either turned into exactly one task or kept verbatim in the reference file, never both or neither. Each task keeps the original sentence, masks exactly the requested number of distinct inner words, records the token positions of exactly those masks, respects the length limits, and the requested number of tasks is taken per corpus whenever both corpora have enough qualifying lines.',
  ['inputs', 'configurations'],
  'all shuffles and mask-position draws for bounded corpora and settings',
  'No test covers it; leaks depend on order, lengths and duplicates.',
  ['discs/common/utils.py'], [('dataset construction', 'discs/common/utils.py')], None, ['written files'])
p('C21', 'Text metrics equal their definitions and top-k keeps the likeliest sentences',
  'For every set of generated and reference sentences, the reported corpus BLEU, self-BLEU and distinct n-gram percentages equal their definitions (self-BLEU against the other sentences, n-gram novelty against each corpus). When top-k selection is on, exactly the k most likely infillings of each task are kept, unaltered, and all resampled sentences of all tasks reach the evaluator. Every step of every resampling of every task uses its own random key.',
  ['inputs', 'histories', 'configurations'],
  'all small corpora over a tiny vocabulary; all likelihood orders of up to the bound of resamplings',
  'No test covers the evaluator or the selection.',
  ['discs/evaluators/lm_eval.py', 'discs/experiment/sampling.py', 'discs/common/experiment_saver.py'],
  [('metrics', 'discs/evaluators/lm_eval.py'), ('top-k', 'discs/experiment/sampling.py')], None, ['saved results'])
p('C22', 'Weighted index sampling follows the stated law and reports its likelihood',
  'Drawing indices with given log-weights returns, with replacement, independent draws with the normalised probabilities and, without replacement, distinct indices with the sequential renormalised law; the number drawn is as requested, fixed or given at run time. The reported log-likelihood of each drawn index equals the probability of that draw given the ones before it, and ordering information allows reconstructing the draw order.',
  ['inputs', 'configurations'],
  'all draws for a grid of weight vectors, sample counts, and all option combinations',
  'Tests sample a few draws; wrong renormalisation keeps shapes.',
  ['discs/common/math_util.py'], [('multinomial, renormalisation, Gumbel perturbation', 'discs/common/math_util.py')], None,
  ['multinomial, bernoulli_logp, mh_step'])
p('C23', 'Every documented model, graph type and sampler combination runs',
  'Every combination of a documented model (and graph type) with a documented sampler can be assembled from the shipped configurations the way the main script does it, initialises, and advances a valid chain in the matching experiment, and writes that experiment\'s result file (ESS table, combinatorial objective pickle with the best samples for normalized cut, sentence metrics, saved sample trajectory, log-partition pickle) with finite values.',
  ['configurations'],
  'the full product of documented classical/energy models, graph types and samplers with shipped configurations (sizes reduced)',
  'The tests construct a handful of pairs by hand.',
  ['discs/experiment/main_sampling.py', 'discs/models/configs/', 'discs/samplers/configs/', 'discs/experiment/configs/', 'discs/common/configs.py'],
  [('configuration merge', 'discs/experiment/main_sampling.py'), ('configs', 'discs/models/configs/, discs/samplers/configs/')], None,
  ['end-to-end run'])
p('C24', 'Partition quality metrics equal the cut ratio and balanceness definitions',
  'For every graph and every partition of its nodes, the post-processing reports the fraction of edges cut and the balanceness of the partition as defined (one for perfectly equal parts, zero when all nodes are in one part), regardless of node labels and of empty parts.',
  ['inputs'],
  'all graphs up to the node bound, all partitions into the given number of parts',
  'No test covers it.',
  ['discs/common/normcut_evaluator.py'], [('evaluate', 'discs/common/normcut_evaluator.py')], None, ['evaluate'])
p('C25', 'Sweeps launch each setting once and result folders map back to settings',
  'For every sweep description, the launcher creates one job per element of the product of each block, with exactly those arguments and the matching sampler configuration and its own save folder, and every job of a shipped sweep is accepted by the main script with those settings in effect. The plotting side recovers from the folder name the settings that produced it (of values containing commas, slashes or parentheses only the leading part), and summary tables show each run once, with its own recorded values, under its sampler and settings group.',
  ['inputs', 'configurations'],
  'all shipped sweep configurations and all small sweep descriptions within the bound',
  'No test covers launching or parsing.',
  ['discs/xm_launcher.py', 'discs/plot_results/plot_utils.py', 'discs/run_configs/'],
  [('sweep expansion and job arguments', 'discs/xm_launcher.py'), ('folder parsing and clustering', 'discs/plot_results/plot_utils.py')], None,
  ['job arguments; parsed settings'])
p('C26', 'Initial samples are valid, correctly distributed and cover all parts',
  'For every model, the requested number of initial samples is produced with the model shape and valid integer categories, every entry following the initial distribution (uniform, or the data mean stored with learned parameters) independently of the others; for graph partitioning every initial sample uses every part at least once and every such sample is possible.',
  ['inputs', 'configurations'],
  'all outcomes of the initial draws for small shapes and sample counts, every model',
  'Tests check one draw.',
  [M + 'bernoulli.py', M + 'categorical.py', M + 'ising.py', M + 'potts.py', M + 'fhmm.py', M + 'rbm.py', M + 'resnet.py', M + 'comb_ebm.py', M + 'normcut.py'],
  [('initial samples', M)], None, ['get_init_samples'])
p('C27', 'Bernoulli estimation errors equal their statistical definitions',
  'For every recorded set of chains of the Bernoulli model, the reported mean and variance errors are the average and maximum squared deviation of the per-chain sample mean and unbiased sample variance from the exact mean and variance of the model, over chains and over the last samples, or over each window of the mixing curve.',
  ['inputs'],
  'all binary sample arrays up to the bound, a grid of parameters',
  'No test covers it.',
  ['discs/evaluators/bernoulli_eval.py', M + 'bernoulli.py'], [('errors', 'discs/evaluators/bernoulli_eval.py')], None, ['evaluate'])

p('C28', 'The replay buffer never loses, mixes up or invents persistent samples',
  'Over every sequence of draws and write-backs, the replay buffer for binary data used for training keeps its size, hands out rows of its buffer (or fresh initial rows where it reinitialises), and a write-back changes exactly the rows that were handed out, each with its own value; every buffer row is reachable, and drawn rows are reinitialised independently of each other with the configured frequency.',
  ['histories', 'inputs'],
  'all sequences of sample/update operations and index draws up to the bound',
  'No test covers the learning code.',
  ['discs/learning/replay_buffer.py'], [('sample/update', 'discs/learning/replay_buffer.py')], [('buffer', 'persistent chains')], ['sample, update'])
p('C29', 'The text-infilling target is the masked-language-model likelihood of the fill',
  'For every sentence, set of infill positions and choice of tokens, the log-density of the text-infilling model is the sum over the infill positions of the log-probability that the masked language model gives the chosen token, with that position masked and all other positions filled as chosen; identically for integer, float and one-hot inputs, per row of a batch, with its gradient. Initial fills follow the language model\'s predictions for the fully masked sentence (or are uniform when so configured). The tasks of the data file are served in order, once each, and a decoded fill is the sentence with exactly the infill positions replaced.',
  ['inputs', 'configurations', 'histories'],
  'all fills of one and two positions and all position sets of bounded sentences over a reduced vocabulary, with small language models; all outcomes of the initial draws',
  'No test covers the model; a wrong mask, position or token only lowers the quality of the text.',
  [M + 'text_infilling.py', 'discs/common/customized_huggingface_flax_bert.py', 'discs/experiment/sampling.py'],
  [('energy, initial fill, decoding', M + 'text_infilling.py'), ('infilled embeddings', 'discs/common/customized_huggingface_flax_bert.py')], None,
  ['forward, get_value_and_grad, get_init_samples, decode, make_init_params'])
p('C30', 'Training performs persistent contrastive divergence',
  'Over every training run, each parameter update is the configured optimizer (with its learning-rate schedule and clipping) applied along the difference between the mean gradient of the log-density at the current model samples and at the data batch, averaged over all devices. The persistent chains are advanced by the configured number of sampler steps with the current parameters, each step and device with its own random key, from where the previous update left them (or from the replay-buffer rows, which are written back). The moving average of the parameters follows its decay. Training (from the start or continued from a later state) stops after exactly the configured number of updates, saves checkpoints and logs at the configured steps, and the parameter file it writes loads into the sampling model with the trained parameters and the data mean.',
  ['histories', 'configurations'],
  'all histories of bounded numbers of updates over the product of trainer settings, device counts, and data orders',
  'No test covers training; a wrong sign, stale parameter or shared key still gives a decreasing loss.',
  ['discs/learning/train.py', 'discs/learning/rbm/main_rbm_training.py', 'discs/learning/binary_ebm/main_binary_training.py', 'discs/common/train_configs.py'],
  [('update loop', 'discs/learning/train.py'), ('training scripts', 'discs/learning/rbm/main_rbm_training.py, discs/learning/binary_ebm/main_binary_training.py')],
  [('chains and optimizer state', 'carried between updates')], ['trained parameters, samples, checkpoints, logs'])
p('C31', 'The training data pipeline delivers every image intact, once',
  'For every data set size, batch size, number of hosts and number of devices, one pass of the training data loader hands out every image of the data set exactly once over all hosts and devices, with its own pixels, in batches of the configured size; dynamic binarisation sets each pixel with probability equal to its intensity, the data mean is the pixel-wise mean of the data set limited to [0.01, 0.99], each raw data set yields its own split, and a tiled picture shows every image once, in order, unchanged.',
  ['inputs', 'configurations'],
  'all data set sizes, batch sizes, hosts and devices up to the bound; all small images',
  'No test covers the data pipeline.',
  ['discs/common/data_loader.py', 'discs/learning/train.py', 'discs/learning/raw_torch_dataset.py', 'discs/plot_results/plot.py'],
  [('data loader', 'discs/common/data_loader.py'), ('image tiling', 'discs/plot_results/plot.py')], None, ['batches, data mean, pictures'])
p('C32', 'A converted PyTorch checkpoint defines the same energy',
  'For every network size and parameter value, the parameters converted from a PyTorch residual-network checkpoint give, in the image model, the energy that the PyTorch network defines for every image, with nothing left out or attached to another layer.',
  ['inputs', 'configurations'],
  'all small images and a grid of network sizes and parameter values',
  'No test covers the conversion; a transposed kernel of a square layer goes unnoticed.',
  ['discs/learning/binary_ebm/pt2params.py', M + 'resnet.py'],
  [('conversion', 'discs/learning/binary_ebm/pt2params.py'), ('network', M + 'resnet.py')], None, ['energy of the converted parameters'])
p('C33', 'Figures show each run\'s own recorded numbers',
  'For every set of result folders, including ones with unfinished runs, the effective-sample-size figures show each finished run once with its recorded value and deviation (scaled by half its chain length), under its sampler and at its own setting on the axis; the curves over time show each run\'s mean recorded value and spread over its instances, against the logging steps and against twice the timed half, for any number of recorded points, with a legend from best to worst; log-partition, estimation-error, acceptance and hop figures show the values recorded for the run they are labelled with. Results of runs on one device and on several are read alike.',
  ['inputs', 'configurations'],
  'all shipped sweeps as result folders, all subsets of unfinished runs, all curve lengths and small trajectories up to the bound',
  'No test covers plotting; a shifted or truncated number still gives a plausible figure.',
  ['discs/plot_results/', 'discs/common/experiment_saver.py', 'discs/evaluators/bernoulli_eval.py'],
  [('bars', 'discs/plot_results/plot_results.py'), ('curves', 'discs/plot_results/plot_co_through_time.py')], None, ['saved figures'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for x in P:
    f.write(json.dumps(x) + '\n')
print(len(P))
