"""Single source of properties.jsonl, checks/meta.json and MANIFEST.json.

    python tools/catalogue.py        regenerate the three files
"""
import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'brainstorm/'


def at(path):
    return path if path.startswith('data/') else B + path

P = []


def prop(id, title, statement, over, text, why, files, mech, technique,
         note, observe=(), assumptions=(), **kw):
    assert len(title) <= 80, title
    P.append(dict(
        prop=dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=[at(f) for f in files],
                               mechanism=[dict(name=n, where=at(w))
                                          for n, w in mech],
                               observe_at=list(observe), hook_needed=None)),
        meta=dict(assumptions=list(assumptions), **kw),
        technique=technique, note=' '.join(note.split())))


FLOAT = ('float64 handler; fixed generic real data per case (no sampling); '
         'numeric agreement is judged with a tolerance')

prop('C01', 'Backpropagation yields the exact gradient of the total loss',
     '''After a training-mode forward and backward pass, the gradient of every
     parameter and the delta reported for every (floating) network input
     equals the partial derivative of the reported total loss with respect to
     it, for every network built from the layers, including fan-out, fan-in,
     shared inputs, several losses, masks, recurrence with a passed-in
     context (which is treated as a constant) and parameters that also feed
     decay losses. Exempt are only the documented non-differentiable paths:
     target, mask and timing inputs, the predictions output of the
     cross-entropy / squared-error layers, the running statistics of batch
     normalization, and layers that rescale deltas on purpose.''',
     ['programs', 'inputs', 'configurations'],
     '''all architectures, layer options, shapes, batch sizes, sequence lengths
     and values''',
     '''Layer tests gradient-check one layer at a time with one seed and one
     shape, starting from zero deltas and zero gradients, so accumulation over
     fan-out, context, ordering, scaling and shapes is never exercised; the
     defects fixed in eacf7bb, e8aba85, 94d5375 and dd4934f passed them.''',
     ['layers/', 'structure/network.py', 'handlers/numpy_handler.py',
      'handlers/_cpuop.pyx'],
     [('backward passes of all layers accumulate into input deltas and '
       'gradients', 'layers/'),
      ('reverse canonical layer order', 'structure/network.py'),
      ('derivative operations', 'handlers/numpy_handler.py')],
     'bounded-exhaustive enumeration of architectures on the real code vs. '
     'complex-step derivatives of an independent reference interpreter',
     '''Every architecture/shape/option of the stated bound is executed on the
     real code; each gradient entry is compared with the complex-step
     derivative (error-free up to rounding) of an independent interpreter,
     which is itself bound to the code by comparing all forward outputs.
     Values are one generic point per case.''',
     observe=['Network.buffer', 'Network.get_loss_values'],
     assumptions=[FLOAT])

prop('C02', 'Every feed-forward layer computes its documented function',
     '''In a forward pass every non-recurrent layer produces exactly the
     function its documentation states of its inputs, parameters and options
     (fully connected, 2D convolution, max / average pooling with stride and
     padding, batch normalization, dropout, masking, merging, highway,
     elementwise, losses and decay penalties, deltas scaling, no-op), for
     every admissible input shape, size and option value, both in training
     and in evaluation mode, and the total loss is the sum of all loss
     layers weighted by importance and averaged over the batch.''',
     ['inputs', 'configurations'],
     'all layer types, options, feature shapes, batch sizes, sequence lengths',
     '''The tests run each layer on one or two shapes and mostly check only
     that forward and backward agree with each other; a forward function that
     is consistently wrong passes a gradient check.''',
     ['layers/', 'handlers/numpy_handler.py', 'handlers/_cpuop.pyx'],
     [('forward passes', 'layers/'),
      ('convolution and pooling kernels', 'handlers/_cpuop.pyx')],
     'exhaustive enumeration of layer configurations on the real code vs. '
     'loop-level reference semantics',
     '''All option/shape combinations of the bound are executed and every
     output entry is compared with scalar-loop reference code written from the
     documentation.''',
     observe=['Network.buffer'], assumptions=[FLOAT])

prop('C03', 'Recurrent layers follow their recurrence and resume exactly',
     '''For every sequence length, batch size and layer option, the recurrent,
     LSTM, clockwork and clockwork-LSTM layers compute the documented
     recurrence step by step starting from zero state. Splitting a sequence at
     any set of points and passing each chunk's context to the next gives
     the same outputs as processing it in one go (for clockwork layers, at
     split points that are multiples of all periods), in any order of other
     passes in between, and the returned context is an independent snapshot
     that later passes never change.''',
     ['inputs', 'histories', 'configurations'],
     'all sequence lengths, batch sizes, sizes, split points and chains of '
     'forward passes',
     '''Tests never split a sequence at all points nor keep a context across
     other passes; the recurrence itself is only checked via gradient
     consistency.''',
     ['layers/recurrent_layer.py', 'layers/lstm_layer.py',
      'layers/clockwork_layer.py', 'layers/clockwork_lstm_layer.py',
      'structure/network.py', 'structure/buffers.py'],
     [('time loop with context row at index -1', 'layers/lstm_layer.py'),
      ('get_context / forward_pass(context)', 'structure/network.py')],
     'exhaustive enumeration of all splits / pass histories on the real code '
     'vs. a step-by-step reference recurrence',
     '''All sequence lengths up to the bound, all 2^(T-1) split sets, and
     interleaved histories are executed and compared with a per-step
     reference.''',
     observe=['Network.forward_pass', 'Network.get_context'],
     assumptions=[FLOAT])

prop('C04', 'Buffer layout wires every connection and shares nothing else',
     '''For every architecture that can be built, each layer input is exactly
     the concatenation of the outputs connected to it, each connected output
     appearing exactly once, no two buffers that are not connected overlap in
     memory, and the flat parameter and gradient vectors contain every
     parameter and gradient entry exactly once. An architecture is rejected
     with a layout error only if no arrangement of the outputs satisfies all
     of its connections.''',
     ['programs', 'configurations'],
     'all connection graphs, feature sizes, batch sizes and sequence lengths',
     '''Tests lay out a handful of hand-written graphs; the hub permutation
     search behaves differently for each overlap pattern of sinks.''',
     ['structure/layout.py', 'structure/buffer_structure.py',
      'structure/buffers.py', 'utils.py'],
     [('hub construction and permutation search', 'structure/layout.py'),
      ('buffer views', 'structure/buffers.py')],
     'exhaustive enumeration of connection graphs on the real code; '
     'write/read tagging of every memory cell plus brute-force '
     'satisfiability oracle',
     '''All connection relations between the stated numbers of outputs and
     inputs are laid out by the real code; aliasing is decided by writing
     every element of every buffer and looking who changes.''',
     observe=['Network.buffer'],
     assumptions=['concatenation of several outputs into one input is stated '
                  'for outputs with a single feature dimension (see DESIGN, '
                  'finding on multi-dimensional features)'])

prop('C05', 'Results do not depend on history, batch neighbours or the future',
     '''Outputs and losses of a pass (and gradients and input deltas of a
     training pass) are a function of the parameters, the provided data and the passed context only: not of
     which passes, batch sizes, sequence lengths, evaluation passes or
     resizes happened before. In evaluation mode the outputs for one sequence
     do not depend on the other sequences of the batch nor on later time
     steps, and growing, shrinking or switching the handler never changes
     parameter values.''',
     ['histories', 'inputs'],
     'all sequences of provide-data / forward / backward / resize / handler '
     'operations, all batch compositions',
     '''Tests run one pass on freshly allocated buffers; stale memory from an
     earlier, larger batch is only visible after specific histories.''',
     ['structure/network.py', 'structure/buffers.py', 'layers/',
      'handlers/numpy_handler.py'],
     [('resize reuses and slices the full buffer', 'structure/buffers.py'),
      ('clearing of backward-only hubs', 'structure/network.py')],
     'explicit enumeration of all operation histories up to a depth on the '
     'real network, differential against a fresh network',
     '''Every operation sequence up to the depth bound is executed on a network
     per layer type; the observation after each pass must equal that of a
     fresh network given the same parameters and data.''',
     observe=['Network.buffer'], assumptions=[FLOAT])

prop('C06', 'A saved network loads back as an equivalent network',
     '''Saving a network to a file (or describing it) and loading it yields a
     network with the same architecture, parameter values, handler,
     initializers, weight and gradient modifiers and output name, which then
     computes identical outputs, losses, gradients and modified
     gradients/weights and initializes identically for the same seed. This
     holds at every point of the network's life (uninitialized, initialized,
     trained, resized, after modifiers were set, after an earlier save and
     load), saving never changes the network, and overwriting an existing file
     replaces it.''',
     ['histories', 'programs', 'configurations'],
     'all architectures, modifier / initializer settings and histories before '
     'saving',
     '''One test saves one freshly initialized network; describing after
     training, with modifiers, per-layer handlers, or twice is not reached
     (58d922d, bfc787a were such defects).''',
     ['structure/network.py', 'describable.py', 'structure/architecture.py',
      'layers/base_layer.py'],
     [('to_hdf5 / from_hdf5', 'structure/network.py'),
      ('__describe__ / __init_from_description__', 'structure/network.py')],
     'exhaustive enumeration of histories x architectures, save/load on the '
     'real code, differential observation',
     '''Every history up to the bound is run, saved, loaded and both networks
     are driven through the same observation script.''',
     observe=['Network.save_as_hdf5', 'Network.from_hdf5'],
     assumptions=['a file system that stores what is written'])

prop('C07', 'Describing and re-creating an object preserves its behaviour',
     '''For every configurable object of the library (initializers, value and
     gradient modifiers, handlers, layers/architectures, steppers, schedules,
     scorers, hooks, trainer, and networks) with any documented options,
     describing it gives a JSON-serializable description that still works
     after a round trip through JSON, re-creating from it gives an object of
     the same type with the same options and the same behaviour, describing
     that again gives the same description, and neither step changes the
     original. Arrays, nested objects, lists, dictionaries and inheritance
     are covered.''',
     ['inputs', 'configurations', 'histories'],
     'all describable classes and option values',
     '''test_describable uses toy classes; the library's own classes with
     non-default options are barely described (7cd9df3, 7094323, fa9ec43 were
     such defects).''',
     ['describable.py', 'initializers.py', 'value_modifiers.py', 'hooks.py',
      'training/', 'scorers.py', 'handlers/'],
     [('get_description / create_from_description', 'describable.py')],
     'exhaustive enumeration of classes x options on the real code, '
     'behavioural comparison of original and re-created object',
     '''All library classes with every option alternative of the bound are
     described, JSON round-tripped, re-created and compared by behaviour.''',
     observe=['describable.get_description'])

prop('C08', 'Initializers and modifiers reach exactly the named parameters',
     '''When initializers or modifiers are assigned with layer / parameter
     name patterns (exact names, wildcards, alternatives, defaults,
     fallbacks, flat or nested), every parameter gets exactly the assignment
     whose pattern names it and nothing else: default applies exactly where
     nothing else matches, modifiers are applied in the listed order with an
     independent copy per parameter, and patterns that match nothing, missing
     or conflicting initializers raise an error. The user's argument is never
     changed.''',
     ['configurations', 'inputs'],
     'all assignments of patterns to a network\'s parameters',
     '''Tests cover a dozen hand-written reference dictionaries on one fixed
     structure.''',
     ['structure/view_references.py', 'structure/network.py'],
     [('pattern resolution', 'structure/view_references.py'),
      ('initialize / set_weight_modifiers', 'structure/network.py')],
     'exhaustive enumeration of small pattern dictionaries on real networks '
     'vs. an independent matching model',
     '''All dictionaries with up to the stated number of patterns from the
     alphabet are applied to real networks and the effect on each parameter is
     observed.''',
     observe=['Network.initialize', 'Network.set_weight_modifiers'])

prop('C09', 'Every initializer delivers what it documents',
     '''For every parameter shape and option, each initializer yields values
     of the requested shape that satisfy its documented contract (ranges and
     moments, identity and orthogonality, spectral radius, exact number of
     non-zero connections, block structure, given arrays), or the documented
     initialization error / fallback where the shape does not fit. Values are
     a function of the options, shape and seed alone.''',
     ['inputs', 'configurations'],
     'all shapes, options and seeds',
     '''Tests try one or two shapes per initializer.''',
     ['initializers.py', 'randomness.py'],
     [('initializer __call__ methods', 'initializers.py')],
     'exhaustive enumeration of initializers x options x shapes x seeds on '
     'the real code against documented contracts',
     '''All initializer/option/shape/seed tuples of the bound are evaluated and
     the contract is decided on each result; distribution claims are decided
     through the recorded calls of a stand-in random source plus moments on a
     large array.''',
     observe=['initializers.evaluate_initializer'])

prop('C10', 'Weight and gradient modifiers act as documented and on time',
     '''Each modifier transforms any array it is given exactly as documented
     (norm constraint per unit, clipping, masking, freezing, L1 / L2 decay of
     gradients), is idempotent where it is a projection, and touches only its
     own parameter. Gradient modifiers act once per backward pass on the
     accumulated gradients before the update, weight modifiers act after
     every update so that constrained parameters always satisfy the
     constraint when hooks, scorers of the next batch or the user look at
     them, in the order given.''',
     ['histories', 'inputs', 'configurations'],
     'all modifiers, shapes, values and training histories',
     '''Tests call a modifier on one array; order, timing in the training loop
     and 1-D / higher-rank shapes are not exercised.''',
     ['value_modifiers.py', 'structure/network.py', 'training/trainer.py'],
     [('apply_weight_modifiers / apply_gradient_modifiers',
       'structure/network.py'),
      ('update loop', 'training/trainer.py')],
     'exhaustive enumeration of modifier sequences x arrays and of training '
     'histories on the real code vs. reference formulas',
     '''All modifier lists up to the bound are run on arrays of all shapes of
     the bound and inside real training loops.''',
     observe=['Trainer.train', 'Network.backward_pass'],
     assumptions=[FLOAT])

prop('C11', 'Every epoch delivers each sequence exactly once, aligned',
     '''For every data set size, batch size, set of named arrays, shuffle
     setting and seed, one pass over an undivided, minibatch or one-hot
     iterator delivers every sequence exactly once, with all named arrays
     aligned, batches of the requested size except possibly the last, in
     original order when not shuffled and re-shuffled each epoch from the
     seed when shuffled. Cutting according to a mask drops only time steps
     that are masked out for the whole batch, one-hot encoding is exact, and
     the user's data is never modified.''',
     ['inputs', 'histories', 'configurations'],
     'all sizes, batch sizes, mask patterns, seeds and numbers of epochs',
     '''Tests iterate over one or two sizes and do not cross mask patterns,
     batch sizes and shuffling.''',
     ['data_iterators.py', 'randomness.py'],
     [('Minibatches.__call__', 'data_iterators.py')],
     'exhaustive enumeration of sizes x batch sizes x masks x seeds x epochs '
     'on the real iterators vs. a list model',
     '''All combinations of the bound are iterated for several epochs and each
     delivered element is identified by a unique tag.''',
     observe=['data_iterators'])

prop('C12', 'Transforming iterators transform exactly and leave sources intact',
     '''Each transforming iterator (noise, padding, random crop, flip, one-hot)
     changes only the named arrays, exactly as documented (crop windows inside
     the image, flips of the whole image per sequence with the documented
     direction, padding value and size, noise of the given moments, one-hot
     rows), passes all other arrays through, composes with other
     transforming iterators, never modifies the wrapped data, gives independent
     epochs and is reproducible from its seed.''',
     ['inputs', 'histories', 'configurations'],
     'all image sizes, options, seeds, compositions and epochs',
     '''Tests check one size and one epoch; edbc0a5, 51211e0, c745a7b, ea56ff8
     and 876bdc5 were defects outside of it.''',
     ['data_iterators.py'],
     [('AddGaussianNoise, Pad, RandomCrop, Flip, OneHot',
       'data_iterators.py')],
     'exhaustive enumeration of options x sizes x seeds x compositions on the '
     'real iterators vs. index-level model',
     '''All combinations of the bound are executed; every delivered pixel is
     identified by a unique tag and compared with the model.''',
     observe=['data_iterators'])

prop('C13', 'The training loop calls everything exactly on schedule',
     '''For every number of batches and epochs and every set of hooks with any
     timescale, interval and priority, training performs one update per
     batch, increments the counters accordingly, calls each hook exactly at
     the multiples of its interval (including once before training starts)
     in priority order, logs each hook's return value under its name at
     those times only, logs the training losses and scores of each epoch
     weighted by batch size, and stops exactly at the update or epoch at
     which some hook asks for it, epoch hooks of that epoch still being
     called. Training can be continued, counters and logs carrying on.''',
     ['histories', 'configurations', 'schedules'],
     'all hook sets, intervals, priorities, stop times and data sizes',
     '''Tests run the trainer on one short configuration with one hook.''',
     ['training/trainer.py', 'hooks.py', 'training/utils.py'],
     [('train / _emit_hooks', 'training/trainer.py')],
     'exhaustive enumeration of hook configurations and stop points on the '
     'real trainer vs. an event-trace reference model',
     '''All configurations of the bound are trained for real with recording
     hooks, and the complete event trace and logs are compared with the
     reference scheduler.''',
     observe=['Trainer.train', 'Trainer.logs'])

prop('C14', 'Stopping criteria stop exactly when documented',
     '''For every history of logged values, the early stopper, threshold stop,
     NaN stop, epoch limit and SIGQUIT stop request to stop exactly at the
     first point at which their documented criterion holds and never before,
     independently of other hooks; ties, negative values, values logged
     before training, minimum/maximum criterion and patience boundaries
     included, and NaN for the NaN stop and the threshold stop.''',
     ['histories', 'configurations'],
     'all log histories over a value alphabet and all option values',
     '''Tests do not run these hooks on more than one history.''',
     ['hooks.py'],
     [('EarlyStopper, StopAfterEpoch, StopAfterThresholdReached, StopOnNan, '
       'StopOnSigQuit', 'hooks.py')],
     'exhaustive enumeration of all log histories up to a length, driven '
     'through the real trainer, vs. direct evaluation of the criterion',
     '''All histories of the bound over the value alphabet are replayed through
     the real hooks.''',
     observe=['hooks'])

prop('C15', 'Monitors report the true values and the best network is kept',
     '''The hook that keeps the best network always holds the parameters (in
     memory or on disk) of the time at which the watched log value first
     reached its best value so far, for every history, and restoring gives exactly these. Monitoring
     hooks (loss, accuracy, Hamming score, general scores, parameter and
     layer statistics, time, logging to memory, HDF5 logs and checkpoints)
     report for every history exactly the values defined by the current
     network on the monitored data and leave the network, its parameters
     and the training trajectory unchanged, also when training is stopped,
     evaluated and continued with the same trainer.''',
     ['histories', 'configurations'],
     'all histories of watched values, batch sizes, data, and intervals',
     '''Tests construct most of these hooks only; 96a02c1, 5d617b9, c5e5c86 and
     e4ea782 were defects on first use.''',
     ['hooks.py', 'tools.py', 'scorers.py'],
     [('SaveBestNetwork, Monitor*, SaveLogs, SaveNetwork', 'hooks.py')],
     'exhaustive enumeration of value histories and hook options driven '
     'through the real trainer vs. recomputation',
     '''All histories/option combinations of the bound are driven through the
     real trainer; every logged value is recomputed independently from the
     recorded parameters.''',
     observe=['Trainer.logs', 'hooks'], assumptions=[FLOAT])

prop('C16', 'Optimizers follow their update equations on every step',
     '''For every sequence of batches, learning rate, momentum, scaling option
     and schedule, plain gradient descent, momentum and Nesterov momentum
     change the parameters on every update exactly according to their
     documented equations, using gradients at the documented point, keep
     their velocity across batches and batch-size changes, restart from zero
     velocity when bound to a network anew, and the losses they report are
     those of the pass. Evaluation-only stepping changes no parameter.''',
     ['histories', 'configurations', 'inputs'],
     'all batch sequences, option values and schedules',
     '''Tests take no more than one step.''',
     ['training/steppers.py', 'training/schedules.py'],
     [('run methods', 'training/steppers.py')],
     'exhaustive enumeration of batch sequences x options on the real '
     'trainer vs. reference trajectory',
     '''All batch sequences/options of the bound are stepped on real networks
     and the parameters compared after each update with an independent
     trajectory.''',
     observe=['Trainer.train', 'Network.buffer.parameters'],
     assumptions=[FLOAT])

prop('C17', 'Schedules give the documented value at every point of training',
     '''At every (epoch, update) point of every training history the linear,
     exponential, multi-step and decrease-after-epoch schedules return exactly the
     documented value for their options, changing only at the documented
     multiples of the interval and staying within their bounds, regardless of
     how often or in what order they are queried.''',
     ['histories', 'configurations'],
     'all option values and all (epoch, update) points',
     '''Tests evaluate a few points.''',
     ['training/schedules.py'],
     [('__call__ methods', 'training/schedules.py')],
     'exhaustive evaluation over all (epoch, update) points and options on '
     'the real code vs. closed formulas',
     '''Every point/option of the bound is evaluated.''',
     observe=['training.schedules'])

prop('C18', 'Evaluation and feature extraction do not depend on batching',
     '''For every data set, batch size, sequence cut and scorer, evaluating a
     network gives the documented score over all valid (unmasked) examples,
     weighting every example equally regardless of how they are split into
     batches, and extracting features returns (or saves) for every example,
     in order, exactly the buffer contents the network computes for it. Data
     that lacks an input of the network is rejected by evaluation, not replaced by what an earlier
     batch left behind.
     Neither changes parameters, and losses are averaged over examples.''',
     ['inputs', 'configurations'],
     'all data set sizes, batch sizes, masks, scorers and buffer names',
     '''Tests evaluate scorers on one array; unequal last batches and masks are
     not crossed.''',
     ['tools.py', 'scorers.py'],
     [('evaluate, extract, extract_and_save, run_network', 'tools.py'),
      ('gather_losses_and_scores', 'scorers.py')],
     'exhaustive enumeration of partitions x masks x scorers on the real code '
     'vs. per-example recomputation',
     '''All sizes/partitions/masks of the bound are evaluated on a real network
     and compared with a per-example reference.''',
     observe=['tools.evaluate', 'tools.extract'],
     assumptions=[FLOAT])

prop('C19', 'Handler operations compute their definition and write only out',
     '''Every operation of the CPU handler computes its definition
     elementwise for all admissible operand shapes, values (including extreme
     ones) and aliasing of the output with an operand, and writes nothing but
     its output operand. The debugging handler gives identical results for
     every well-formed call, and for its elementwise, matrix, indexing,
     merging and activation operations it rejects every call with
     mismatching shapes, wrong operand kinds or foreign arrays instead of
     computing something.''',
     ['inputs'],
     'all operations, shapes, values, aliasing patterns',
     '''The reference test compares each operation on a fixed list of random
     shapes without aliasing and without checking operand preservation.''',
     ['handlers/numpy_handler.py', 'handlers/_cpuop.pyx',
      'handlers/debug_handler.py'],
     [('operations', 'handlers/numpy_handler.py'),
      ('argument checks', 'handlers/debug_handler.py')],
     'exhaustive enumeration of operations x shapes x value alphabet x '
     'aliasing on the real code vs. scalar-loop definitions',
     '''All operations on all shapes of the bound; each result entry compared
     to a scalar definition; all operands compared bytewise before/after.''',
     observe=['NumpyHandler', 'DebugHandler'])

prop('C20', 'Wired architectures mean what was written, errors are reported',
     '''For every way of wiring layers with the construction operator or of
     writing the architecture dictionary, the resulting network has exactly
     the stated layers, options and connections, unique names (given names
     kept, clashes numbered), a layer order in which every layer comes after
     all its sources, and shapes propagated as documented, independently of
     the order in which things were written. Ill-formed architectures
     (missing or misplaced input layer, cycles, unknown layers, inputs or
     outputs, shapes the layer does not accept, options it does not know,
     unconnected inputs) are rejected with
     an error, and so are option values of the wrong type or out of range
     (sizes, filter counts, kernel sizes, strides, paddings, activation
     functions, pooling types, decays, dropout probabilities), at the latest
     when the network is first run.''',
     ['programs', 'configurations'],
     'all small layer graphs, wiring orders, name choices and single '
     'mutations of valid architectures',
     '''Tests build a few graphs; name clashes, orders and mutations are
     combinatorial.''',
     ['structure/construction.py', 'structure/architecture.py',
      'uniquely_named.py', 'layers/base_layer.py', 'structure/layout.py'],
     [('generate_architecture', 'structure/architecture.py'),
      ('ConstructionWrapper', 'structure/construction.py')],
     'exhaustive enumeration of layer DAGs x wiring orders x names x '
     'single-fault mutations on the real code vs. reference graph model',
     '''All graphs/orders/mutations of the bound are constructed through the
     real API and compared with the intended graph.''',
     observe=['construction', 'Network.from_architecture'])

prop('C21', 'Everything is reproducible from seeds',
     '''With the global seed set (or seeds passed explicitly) the same program
     gives bit-identical networks, initial parameters, batches, dropout masks,
     noise and training trajectories, in the same or another process and
     whatever hash randomization is in effect; explicitly passed seeds override
     the global one, random streams of different components are
     independent, and resetting, re-seeding or copying a random state
     reproduces its stream from that point exactly.''',
     ['histories', 'schedules', 'configurations'],
     'all seed settings, operation sequences on random states, processes and '
     'hash seeds',
     '''Tests check a few two-step sequences on random states in one
     process.''',
     ['randomness.py', 'structure/network.py', 'data_iterators.py',
      'layers/dropout_layer.py', 'initializers.py'],
     [('RandomState, HierarchicalRandomState, Seedable', 'randomness.py')],
     'exhaustive enumeration of random-state operation sequences vs. '
     'reference, and of hash seeds x programs across processes',
     '''All operation sequences up to the depth bound on random states; all
     programs of the list in separate processes under several hash seeds.''',
     observe=['randomness', 'Network.initialize'])

prop('C22', 'Convenience tools build and split exactly what was asked for',
     '''For every valid specification string, task type and shape, the network
     builders give exactly the layers, sizes, activations, connections and
     loss / target wiring the specification states, and reject unknown layer letters, missing or
     non-numeric layer arguments, and unknown task types. Shuffling a data set keeps all
     arrays aligned and every sequence exactly once, splitting gives
     consecutive disjoint parts with the requested ratios covering everything,
     and the inputs are unchanged.''',
     ['inputs', 'programs', 'configurations'],
     'all specification strings up to a length, task types, sizes, ratios '
     'and seeds',
     '''Tests for the tools build a few specifications.''',
     ['tools.py'],
     [('create_net_from_spec, get_in_out_layers, shuffle_data, split',
       'tools.py')],
     'exhaustive enumeration of specification strings / sizes / ratios on the '
     'real code vs. a reference grammar',
     '''All strings of the bound over the specification grammar are built and
     the resulting architecture compared with a reference reading.''',
     observe=['tools'])

prop('C23', 'Data and buffers are addressed by name exactly, mismatches rejected',
     '''Data provided for a network reach exactly the inputs they are named
     after, converted to the number type of the handler, whatever the order
     of the dictionary, superfluous entries, number type or memory layout of
     the arrays; missing inputs and data, parameter values or contexts whose
     shape is not exactly the required one are rejected and leave nothing
     behind that affects later correct passes. All access paths to a buffer
     lead to the same memory, unknown paths are errors, everything handed
     out by get, get_input, get_loss_values and get_context is a copy, and
     arrays handed in are neither modified nor used afterwards. Every valid
     layer or input name works alike.''',
     ['inputs', 'configurations', 'histories'],
     '''all input sets, dictionary orders, number types, memory layouts,
     sizes, wrong shapes and names''',
     '''Tests provide C-contiguous float arrays of the right shape in one
     order and never a wrong shape, so broadcasting mistakes (96d8acf) and
     name clashes (50c81bf) passed them.''',
     ['structure/network.py', 'structure/buffers.py',
      'structure/buffer_views.py', 'handlers/'],
     [('provide_external_data, get, get_input, get_context',
       'structure/network.py'),
      ('BufferManager.resize, apply_context', 'structure/buffers.py'),
      ('BufferView', 'structure/buffer_views.py'),
      ('copy_to, set_from_numpy, get_numpy_copy', 'handlers/')],
     'exhaustive enumeration of data dictionaries / layouts / wrong shapes / '
     'access paths on the real code against the data provided',
     '''Every dictionary order, layout, type, wrong shape and path within the
     bound is executed on the real networks.''',
     observe=['Network.get', 'Network.get_input', 'Network.buffer'],
     assumptions=[])

prop('C24', 'The debug handler changes no result and reports non-finite values',
     '''Under the debug handler every network, training run, value modifier,
     monitor, evaluation, extraction and saved file gives bit for bit what
     the wrapped handler gives, and nothing that is correct is rejected. Every
     NaN or infinity that enters through data or parameters, or arises in any
     buffer during a forward or backward pass, is reported with an error.''',
     ['programs', 'inputs', 'configurations'],
     '''all networks, training configurations, sizes and values''',
     '''Tests run the debug handler on single layers; modifiers, steppers,
     monitors and tools are never run under it (1e17157), and no test lets a
     non-finite value arise inside a network.''',
     ['handlers/debug_handler.py', 'layers/', 'value_modifiers.py',
      'training/', 'hooks.py', 'tools.py'],
     [('check_for_inf_or_nan and operand checks',
       'handlers/debug_handler.py'),
      ('all users of handler operations', 'layers/')],
     'exhaustive enumeration of networks / pass histories / training '
     'configurations, executed in lock step under both handlers',
     '''Both handlers execute every history of the bound and all buffers are
     compared after every step; non-finite values are injected at every entry
     and produced by a grid of magnitudes.''',
     observe=['Network.buffer', 'Trainer.logs'],
     assumptions=[])

prop('C25', 'Objects do not influence each other through what they share',
     '''What is done with one network, trainer or data iterator never shows
     in another one, whatever they have in common (architecture, construction
     layers, description, saved file, handler, initialisers, modifiers, data,
     iterators) and however their operations interleave. Calls leave their
     arguments as they were, and changing an argument or a result afterwards
     has no effect on the object.''',
     ['schedules', 'programs'],
     '''all interleavings of operations on two objects and all ways of
     sharing parts''',
     '''Tests use one network, trainer or iterator at a time; state that
     leaks through a class attribute, a default argument, a shared list or a
     returned reference only shows when two objects are used in turn.''',
     ['structure/', 'data_iterators.py', 'training/', 'value_modifiers.py',
      'initializers.py', 'handlers/', 'describable.py', 'tools.py'],
     [('Network.from_architecture, from_layer, initialize, set_*_modifiers',
       'structure/network.py'),
      ('order_and_copy_modifiers', 'structure/view_references.py'),
      ('generate_architecture, get_kwargs', 'structure/architecture.py'),
      ('Trainer.train, TrainingStepper.start', 'training/'),
      ('iterators as generators', 'data_iterators.py')],
     'exhaustive enumeration of the interleavings of two operation sequences '
     'on the real objects, each observation compared with that of the '
     'sequence running alone (non-interference)',
     '''Every interleaving within the bound is executed; after every
     operation the acting object is compared byte for byte with its run alone
     and the other object with its state before.''',
     observe=['Network.buffer', 'Trainer.logs', 'DataIterator.__call__'],
     assumptions=['single thread: operations are atomic'])

prop('C26', 'Components written by a user work exactly like the built-in ones',
     '''A layer, initialiser, value or gradient modifier, stepper, scorer,
     hook, schedule, data iterator or handler that a user defines by
     subclassing the public base class can be used at every place where a
     built-in one can, and behaves as the same thing built in would. A layer
     may declare any outputs, parameters and internal buffers (constant,
     batch or time sized, any context size, backward-only): it gets memory of
     the declared shapes that nothing else touches, with the context
     reachable by negative indices and carried between passes; declarations
     and inputs that do not fit are rejected. Classes are found by their
     name, however deeply derived, whenever they were defined and however
     similar their names, so that networks and trainers using them can be
     described, saved and restored.''',
     ['inputs', 'histories', 'programs'],
     '''all buffer declarations, all connections of user-written recurrent
     layers, all subsets of components replaced by user-written ones''',
     '''Tests and the library itself only use its own layers and components,
     which need context sizes 0 and 1, no batch sized outputs and fixed class
     names; that the rest of what the interfaces promise works depends on the
     declaration, the connections and the history of passes.''',
     ['structure/', 'layers/base_layer.py', 'describable.py', 'utils.py',
      'training/', 'hooks.py', 'scorers.py', 'initializers.py',
      'value_modifiers.py', 'data_iterators.py'],
     [('BufferStructure, StructureTemplate', 'structure/buffer_structure.py'),
      ('Hub, create_layout', 'structure/layout.py'),
      ('BufferManager.get_context, apply_context', 'structure/buffers.py'),
      ('get_layer_class_from_typename, Layer', 'layers/base_layer.py'),
      ('ConstructionWrapper.create', 'structure/construction.py'),
      ('get_inheritors', 'utils.py'),
      ('create_from_description', 'describable.py')],
     'exhaustive enumeration of declarations, connections, splits and subsets '
     'of user-written components on the real code, against numpy references, '
     'numeric derivatives and the built-in twins',
     '''Every declaration, connection, split and subset of replaced components
     within the bound is built and run, and its memory, values, logs and
     descriptions are compared with the reference or the built-in twin.''',
     observe=['Network.buffer', 'Layer.get_shape', 'Trainer.logs',
              'get_description'],
     assumptions=['user-written code keeps to the documented interfaces'])

prop('C27', 'Interrupted and failing operations leave everything usable',
     '''An operation on a network, trainer or iterator can be interrupted
     (Ctrl-C) or a component (handler, layer, iterator, scorer, hook,
     stepper, initialiser, modifier, schedule, file access) can fail at any
     point, for example for want of memory. The exception then reaches the
     caller unless the documentation says otherwise. The trained parameters
     are not lost: operations that do not set parameters leave them
     unchanged, and the settings (initialisers, modifiers, handler) are the
     old or the new ones. Everything done afterwards, including the same
     operation again, gives what it would give with objects that had the
     same parameters and settings and were never interrupted. An assignment
     of initialisers or modifiers that is rejected has changed nothing. A
     file that was not written completely is refused, and never loaded as
     another network.''',
     ['crash points', 'fault points', 'histories'],
     '''all fault points of all operations of the library, all kinds of
     exceptions, all continuations after them''',
     '''A failure can strike at thousands of points within a pass, a resize, a
     training or a save; tests cannot enumerate them, and do not look at what
     remains afterwards.''',
     ['structure/buffers.py', 'structure/network.py', 'training/', 'hooks.py',
      'tools.py', 'data_iterators.py', 'handlers/'],
     [('BufferManager.resize, set_handler', 'structure/buffers.py'),
      ('Network.initialize, set_handler, provide_external_data, '
       'forward_pass, backward_pass, save_as_hdf5',
       'structure/network.py'),
      ('Trainer.train', 'training/trainer.py'),
      ('TrainingStepper.start, run', 'training/steppers.py'),
      ('evaluate, extract_and_save', 'tools.py')],
     'exhaustive enumeration of fault points: the real operations run under a '
     'fault injector that makes each call of a component fail in turn, '
     'followed by operations whose results are compared with a twin that was '
     'not interrupted',
     '''For every operation, every call of a component during it is made to
     fail in every way of the bound, before and after its effect; what is left
     is compared with the state before, and what follows with a twin that was
     never interrupted.''',
     observe=['Network.get', 'Network.buffer', 'Trainer.logs', 'saved files'],
     assumptions=['a failure of a component is an exception at the start or '
                  'the end of one of its calls'])

prop('C28', 'Prepared data sets hold the source data exactly',
     '''The scripts in data/ turn the downloaded archives of MNIST, CIFAR-10,
     CIFAR-100 and the Hutter Prize into HDF5 files without losing, moving
     or exchanging anything. Every image is in the set of the variant that
     the description in the file names, at its position, upright, with its
     channels last and with its own label (the fine one for CIFAR-100);
     CIFAR images are normalised with the pixel-wise mean and standard
     deviation of the first 40000 training images, which the file holds as
     attributes. Going through the Hutter batches of 100 sequences without
     shuffling continues the text in every row, each character has the next
     one as target, and the attribute "unique" maps classes to characters.
     The archive is downloaded only when it is not in the directory named by
     BRAINSTORM_DATA_DIR (or the current one); an incomplete archive is
     refused.''',
     ['inputs', 'environments', 'crash points'],
     '''all positions of all examples in all sets; all environments of the
     scripts; archives cut anywhere''',
     '''No test runs the scripts (they need a download), and a shifted target,
     a swapped axis or a set cut at another place shows in no error, only in
     worse models.''',
     ['data/create_mnist.py', 'data/create_cifar10.py',
      'data/create_cifar100.py', 'data/create_hutter.py',
      'data_iterators.py'],
     [('normalized_split, normalized_full', 'data/create_mnist.py'),
      ('normalized_split, normalized_full', 'data/create_cifar10.py'),
      ('normalized_split, normalized_full', 'data/create_cifar100.py'),
      ('convert_to_batches, split', 'data/create_hutter.py')],
     'exhaustive enumeration of index space, environments and cut points: '
     'the real scripts run on generated archives in which every position can '
     'be told apart, and every cell of their output is compared',
     '''The real scripts run in every environment of the bound with a
     stand-in for the download; every value of every set they write is
     compared with the source, and every cut archive must be refused.''',
     observe=['the HDF5 files'],
     assumptions=['the archives have the documented formats and sizes'])

NOT_APPLICABLE = [
    dict(prop=dict(
        id='N01', title='GPU handler agrees with the CPU handler',
        statement='''Every operation of the CUDA handler gives the same result
        as the CPU handler.'''.replace('\n        ', ' '),
        quantifier=dict(over=['inputs'], text='all operations and shapes'),
        why_tests_cant='Tests need a GPU and sample a few shapes.',
        anchors=dict(files=[B + 'handlers/pycuda_handler.py'],
                     mechanism=[dict(name='CUDA kernels', where=B +
                                     'handlers/pycuda_handler.py')])),
        reason='needs pycuda and a GPU: the code cannot even be imported '
               'here, so no execution of it can be explored and no model can '
               'be bound to it'),
]


def bounds(pid):
    path = os.path.join(VERIF, 'checks', pid + '.py')
    if not os.path.exists(path):
        return dict(quick='', thorough='')
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == 'BOUNDS':
            return ast.literal_eval(node.value)
    raise KeyError(pid)


def design(bounds):
    """Fill the generated parts of DESIGN.md."""
    path = os.path.join(VERIF, 'DESIGN.md')
    text = open(path).read()

    def put(mark, body):
        a = text.index('<!-- %s -->\n' % mark) + len('<!-- %s -->\n' % mark)
        return text[:a] + body + text[text.index('<!-- end -->', a):]
    for i, b in bounds.items():
        text = put('bounds ' + i, '*Bounds (quick)*: %s.\n\n*Bounds '
                   '(thorough)*: %s.\n' % (b['quick'], b['thorough']))
    rows = ['| bug | property | needs | caught by |\n|---|---|---|---|\n']
    base = os.path.join(VERIF, 'seeded')
    for d in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        m = json.load(open(os.path.join(base, d, 'meta.json')))
        rows.append('| %s | %s | %s | %s |\n' % (
            d, m['property'], m['needs'], m.get('caught_by', '?')))
    if len(rows) > 1:
        text = put('planted', ''.join(rows))
    with open(path, 'w') as f:
        f.write(text)


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['prop']) + '\n')
        for p in NOT_APPLICABLE:
            f.write(json.dumps(p['prop']) + '\n')
    for p in P:
        p['meta']['bounds'] = bounds(p['prop']['id'])
    meta = {p['prop']['id']: p['meta'] for p in P}
    with open(os.path.join(VERIF, 'checks', 'meta.json'), 'w') as f:
        json.dump(meta, f, indent=1, sort_keys=True)
    checks, na = [], []
    for p in P:
        i = p['prop']['id']
        if not os.path.exists(os.path.join(VERIF, 'checks', i + '.py')):
            na.append(dict(property=i, reason='check not built yet'))
            continue
        checks.append(dict(
            property=i, quick_cmd='/opt/venv/bin/python run.py %s quick' % i,
            thorough_cmd='/opt/venv/bin/python run.py %s thorough' % i,
            technique=p['technique'], level='model_checking',
            level_note=p['note'] + ' Bounds (quick): ' +
            p['meta']['bounds']['quick']))
    for p in NOT_APPLICABLE:
        na.append(dict(property=p['prop']['id'], reason=p['reason']))
    design({p['prop']['id']: p['meta']['bounds'] for p in P})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1,
                       setup_cmd='/opt/venv/bin/python run.py build',
                       checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
