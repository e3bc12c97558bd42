"""Texts of the properties (source of properties.jsonl and MANIFEST.json; see tools/gen.py)."""

P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [])


prop('P01', 'Equal digests mean equal configuration',
     'Whenever two objects of the same class are configured so that any of their results (output blocks, spectra, maps, positions, '
     'metadata) can differ, their digests differ; a digest takes in every parameter, in full precision, of the object itself and of '
     'everything upstream or attached to it. Results that are stored in a cache file are stored under a name that contains that digest.',
     ['configurations'], 'all classes that have a digest, all assignments of their traits and of the objects they refer to',
     'A collision needs two particular configurations that differ in one parameter; the tests compare digests of a few hand-picked ones, '
     'while a result served from the cache for another configuration looks like a valid result.',
     ['acoular/internal.py', 'acoular/base.py', 'acoular/process.py', 'acoular/sources.py', 'acoular/spectra.py', 'acoular/fbeamform.py',
      'acoular/tbeamform.py', 'acoular/tprocess.py', 'acoular/fprocess.py', 'acoular/signals.py', 'acoular/grids.py', 'acoular/microphones.py',
      'acoular/environments.py', 'acoular/trajectory.py', 'acoular/aiaa/aiaa.py'],
     [('digest of the declared dependencies', 'acoular/internal.py:digest'), ('depends_on lists of every Property digest', 'acoular/*.py'),
      ('node names in the cache file', 'acoular/spectra.py:PowerSpectra._get_filecache')],
     'interprocedural read-set analysis against the declared digest dependencies',
     'Sound up to the stated exemptions (one reason each) for reads the typed access-path analysis resolves; reads through untyped '
     'containers are not seen. The hash function itself is assumed collision free.',
     ['digest', 'cache files'])

prop('P02', 'Cached and derived values follow their inputs',
     'After any change of a parameter of an object, or of an object it refers to, reading any attribute gives the same value as on a '
     'freshly created object with that configuration: no derived or cached value, coefficient or digest stays stale. Derived values that '
     'other objects are computed from announce their changes to them.',
     ['histories', 'configurations'], 'all sequences of trait assignments, all derived attributes of all classes',
     'Staleness shows only after a specific read - change - read sequence on one attribute; tests build an object, read it once and drop it.',
     ['acoular/base.py', 'acoular/process.py', 'acoular/sources.py', 'acoular/spectra.py', 'acoular/fbeamform.py', 'acoular/tbeamform.py',
      'acoular/tprocess.py', 'acoular/fprocess.py', 'acoular/signals.py', 'acoular/grids.py', 'acoular/microphones.py', 'acoular/environments.py'],
     [('cached_property / property_depends_on getters', 'acoular/*.py'), ('change handlers', 'acoular/grids.py:MergeGrid')],
     'read-set analysis of cached getters against traits listener semantics',
     'Sound for reads of traits the access-path analysis resolves under the documented listener semantics of traits; in-place mutation of '
     'arrays held by a trait is outside (traits does not announce it).',
     ['trait values after assignments'])

prop('P24', 'No configuration reaches a value that was never computed',
     'No sequence of branches and loop passes that a declared option value, an empty or short source, or the amount of data can select '
     'reaches a local value before it has been assigned: such a run returns a result or raises a deliberate error, never UnboundLocalError.',
     ['configurations', 'inputs'], 'all functions and methods, all combinations of option values, loops of any number of passes',
     'The failing combination of an option value and a data length is one of many; the tests run each class with its defaults.',
     ['acoular/base.py', 'acoular/process.py', 'acoular/sources.py', 'acoular/spectra.py', 'acoular/fbeamform.py', 'acoular/tbeamform.py',
      'acoular/tprocess.py', 'acoular/fprocess.py', 'acoular/signals.py', 'acoular/grids.py', 'acoular/environments.py', 'acoular/tools/utils.py'],
     [('branches on option traits', 'acoular/*.py'), ('loops over blocks', 'acoular/*.py')],
     'path-sensitive definite-assignment dataflow',
     'Conditions on unmodified operands are correlated; configured counts are assumed positive; loops over blocks may run zero times.',
     ['exceptions'])

prop('P28', 'Every documented parameter has an effect',
     'Every parameter that belongs to the configuration of an object, every other public setting it declares, and every parameter of a public '
     'method or function takes part in computing what it returns: there is no parameter that can be set and is then ignored.',
     ['configurations'], 'all classes with a digest, all parameters listed in it',
     'An ignored parameter gives plausible results; a test has to compare two runs that differ in just that parameter for each of them.',
     ['acoular/base.py', 'acoular/process.py', 'acoular/sources.py', 'acoular/spectra.py', 'acoular/fbeamform.py', 'acoular/tbeamform.py',
      'acoular/tprocess.py', 'acoular/fprocess.py', 'acoular/signals.py', 'acoular/grids.py', 'acoular/environments.py'],
     [('trait declarations and result methods', 'acoular/*.py')],
     'interprocedural read-set analysis (declared but unread parameters)',
     'Shows that the parameter reaches a result method, not how it acts on the values there.',
     ['results'])

_ALL = ['acoular/base.py', 'acoular/process.py', 'acoular/sources.py', 'acoular/calib.py', 'acoular/spectra.py', 'acoular/fbeamform.py', 'acoular/tbeamform.py',
        'acoular/tprocess.py', 'acoular/fprocess.py', 'acoular/signals.py', 'acoular/grids.py', 'acoular/environments.py']

prop('P05', 'A processing step leaves the data of others alone',
     'A step of a processing chain never writes into a block it received from its source, and never uses, stores or collects such a block '
     '(or a view of it) after it has requested the next one unless it made a copy. No computation writes into an array that belongs to '
     'the configuration of an object or to a cached property.',
     ['histories', 'configurations'], 'all chains of steps, all block sizes, sources that hand out copies or reuse one buffer',
     'Damage depends on which source feeds the step (one that yields views of stored data or reuses its buffer) and on who else reads it; '
     'tests feed each step from one source and compare one output.',
     _ALL,
     [('loops over the blocks of a source', 'acoular/*.py:result'), ('helpers that receive blocks', 'acoular/tprocess.py'), ('compiled helpers', 'acoular/fastFuncs.py')],
     'interprocedural alias/effect analysis',
     'Views made by slices, transposition, reshape and functions returning their argument are followed; a view through an index of unknown '
     'kind counts as a copy.',
     ['blocks', 'attributes'])

prop('P08', 'Computing a result does not change any configuration',
     'Reading attributes, iterating over blocks or computing maps and spectra does not assign any public parameter of the object itself, '
     'and never assigns anything to the objects it refers to (its source, grid, microphones, steering vector, spectra, sub-sources).',
     ['histories'], 'all result methods, getters, validators and change handlers of all classes with a digest, and the helpers they call',
     'The change shows only in what is computed afterwards with the shared object, possibly by another object.',
     _ALL,
     [('result methods and getters', 'acoular/*.py'), ('change handlers', 'acoular/*.py')],
     'effect analysis of attribute stores through aliases and helpers',
     'Operations that are meant to change an object (loading, saving, registering, creating) may assign its own parameters; documented '
     'state flags of running recordings are exempt by name.',
     ['trait values'])

prop('P09', 'Results are reproducible',
     'Results depend on nothing but the configuration: no clock, process or object identity, salted hash, unordered iteration, global or unseeded '
     'random generator takes part, and generators of random signals start anew from their seed on every call. Iterating a second time over the '
     'blocks of an object gives the same data whether or not the first iteration was completed, and objects share no hidden mutable state.',
     ['histories', 'configurations'], 'all functions of the package; all repetitions of runs, complete or abandoned',
     'Tests run a chain once, in one process; an abandoned first iteration or another hash seed is not sampled.',
     _ALL,
     [('random signals', 'acoular/signals.py'), ('buffers of result generators', 'acoular/process.py:SamplesBuffer')],
     'entropy source scan, interprocedural must-assign analysis of run state, shared-state scan',
     'Run state that legitimately outlives a run (shared buffers of a splitter, live recordings) is exempt by name.',
     ['blocks'])

prop('P16', 'Every declared option value is implemented, and only those',
     'Each value that an option (method, type, mode, precision, weighting, caching policy) declares selects its own behaviour: none is ignored, silently does '
     'nothing, or does the same as another one. Code never tests, assigns or passes a value that the option does not declare, and lookup tables keyed by '
     'option values are complete and without repeated entries.',
     ['configurations'], 'all options with a fixed set of values, all functions that depend on them, all combinations that key a table',
     'Tests use a few of the values, and rarely all combinations; a value that is mistyped at one place silently gets the default behaviour.',
     _ALL + ['acoular/fastFuncs.py', 'acoular/configuration.py'],
     [('branches on options', 'acoular/*.py'), ('dispatch tables', 'acoular/fastFuncs.py:beamformerFreq'), ('dispatch tables', 'acoular/fbeamform.py:SteeringVector')],
     'partial evaluation of the syntax tree per option value',
     'Decides that values differ in the code they select, not that this code computes what the value is named after.',
     ['results'])

prop('P17', 'The end of a source ends its consumers cleanly',
     'When a source delivers its last block, every step that pulls blocks explicitly ends its own output normally: no request at the end of a source '
     'escapes as an error out of a generator, and no step keeps requesting for ever.',
     ['inputs', 'histories'], 'all generators and the helpers they call, sources of any length including none',
     'Only the interplay of a particular length with a particular block size reaches the end at that request.',
     ['acoular/process.py', 'acoular/tprocess.py', 'acoular/sources.py', 'acoular/spectra.py', 'acoular/fprocess.py', 'acoular/tbeamform.py', 'acoular/tools/utils.py', 'acoular/tools/helpers.py'],
     [('explicit requests for blocks', 'acoular/*.py:next(...)')],
     'exception-flow analysis of StopIteration',
     'Helpers are followed through self, subclasses and module functions; requests through untyped callables are not.',
     ['exceptions'])

prop('P25', 'An explicit zero is not taken for "not given"',
     'An optional numeric parameter (default None) that is set to 0 is treated as the number 0, in every method: only None means that it was not given.',
     ['inputs'], 'all optional numeric traits and arguments, all tests of them',
     'Zero is one value of each parameter; tests set none or a typical one.',
     ['acoular/process.py', 'acoular/tprocess.py', 'acoular/sources.py', 'acoular/fbeamform.py', 'acoular/spectra.py', 'acoular/tbeamform.py', 'acoular/grids.py'],
     [('optional traits', 'acoular/*.py')],
     'type-directed query for truth-value tests',
     'Arguments count as numeric when the function computes, compares or slices with them.',
     ['results'])

prop('P27', 'Equal configurations have equal digests',
     'Two objects of a class with equal parameters and equally configured sources and sub-objects have the same digest, in the same or another '
     'process: memory addresses, object identities, hash seeds and set order never enter a digest.',
     ['configurations', 'histories'], 'all classes with a digest, all values of their parameters',
     'An identity in a digest makes every cached result unusable in the next session, which a test in one process does not notice.',
     _ALL,
     [('depends_on lists of digest properties', 'acoular/*.py'), ('digest functions', 'acoular/internal.py')],
     'kind check of every digest entry',
     'Entries are classified by their declared trait type; traits declared Any are trusted when listed as an exemption.',
     ['digest'])

prop('P29', 'Results belong to the frequency they are stored at',
     'When maps are calculated for a set of frequencies, each requested frequency is calculated, from the spectral data, the steering vectors and the point '
     'spread function at that same frequency, and stored at that frequency. A frequency (or a grid point of a point spread function) is marked as calculated '
     'only after its result has been stored, and always then.',
     ['histories', 'inputs'], 'all beamformers, all subsets and orders of requested frequencies, calculations interrupted at any point',
     'A mix-up shows only when several frequencies are requested in one go, or after an interruption; tests mostly request one frequency.',
     ['acoular/fbeamform.py'],
     [('loops over frequencies', 'acoular/fbeamform.py:*._calc'), ('point spread functions', 'acoular/fbeamform.py:PointSpreadFunction.calc_psf')],
     'index-space analysis and must-store dataflow',
     'Covers the arrays over frequency that are attributes (result, flags, frequencies, cross spectra, eigen decomposition) and their local names.',
     ['maps'])

prop('P03', 'The caching policy is obeyed',
     'For every cached result (cross spectra, maps, point spread functions, time data): policy "none" never touches a cache file, "individual" only when '
     'the object has caching enabled, "all" always uses the cache, "readonly" never creates, changes or removes a stored entry nor opens the file for '
     'writing, and "overwrite" never returns what was stored before. An entry is created only where none exists and read only where one does.',
     ['configurations', 'histories'], 'all classes that cache results, all five policies, both settings of the switch, entries that exist or not',
     'The outcome depends on policy, switch and on what earlier sessions left in the file; tests run with caching off or with an empty file.',
     ['acoular/h5cache.py', 'acoular/h5files.py', 'acoular/fbeamform.py', 'acoular/spectra.py', 'acoular/process.py', 'acoular/configuration.py'],
     [('cache access', 'acoular/*.py:*._get_filecache'), ('cache access', 'acoular/process.py:Cache.result'), ('cache files', 'acoular/h5cache.py:HDF5Cache')],
     'partial evaluation per policy with interprocedural taint and typestate of cache entries',
     'Calls that modify entries are those of the cache file interface, including stores through references into the file.',
     ['cache files', 'results'])

prop('P04', 'A partially written cache entry is never served as complete',
     'Time data that is cached while it is processed is marked complete only after the source has delivered its last block and every block has been stored; '
     'when processing stops earlier, at any block, a later run notices and delivers the same blocks as the source, none missing and none twice. '
     'A complete entry is delivered to its last row without asking the source.',
     ['crash points', 'histories'], 'all policies, all states an earlier session may leave the entry in, interruption at every block',
     'The state left behind depends on the block at which an earlier session stopped; a test would have to stop at each.',
     ['acoular/process.py', 'acoular/h5cache.py', 'acoular/h5files.py'],
     [('cache of time data', 'acoular/process.py:Cache')],
     'abstract interpretation over entry states, policies and interruption points',
     'Counters and row positions are followed as linear forms; loops the domain cannot express are reported as not followed. Results of beamformers and spectra: see P29.',
     ['cache files', 'blocks'])

prop('P11', 'Files, streams and locks are released however processing ends',
     'A file, stream or lock that a call opens or takes is closed or released when the call ends, whether normally, by an error at any point, or because the '
     'consumer stops asking for blocks, and is not used afterwards. An object that opens another file closes the one it held; status flags that '
     'say something is in progress are reset.',
     ['crash points', 'histories'], 'all functions that open files or streams or take locks, all exits including exceptions and closed generators',
     'Tests run to the end; an error or an early stop leaves files open, locked or truncated only at the point where it happens.',
     _ALL + ['acoular/sdinput.py', 'acoular/h5cache.py', 'acoular/h5files.py', 'acoular/aiaa/aiaa.py'],
     [('files', 'acoular/tprocess.py:WriteH5'), ('files', 'acoular/sources.py:TimeSamples'), ('streams', 'acoular/sdinput.py'), ('flags', 'acoular/h5cache.py')],
     'typestate dataflow with exceptional exits',
     'Statements without a call are taken not to raise; a handle that is stored in a container or returned is followed to the caller, not further.',
     ['open files', 'status flags'])

prop('P10', 'Objects share cache files safely',
     'Objects that use the same cache file share one open handle: a file is opened once, closed only when no object holds it, and then always. The '
     'number of users of every file is right after any sequence of requests, changes of directory, policy or library, and requests by several threads are '
     'serialised.',
     ['histories', 'schedules'], 'all situations a request can find, all paths through it',
     'It needs several objects, several files and a particular order of requests, or several threads.',
     ['acoular/h5cache.py', 'acoular/h5files.py', 'acoular/configuration.py'],
     [('registry', 'acoular/h5cache.py:HDF5Cache')],
     'path-wise abstract execution of the request per situation, lockset analysis',
     'Whether an object in memory refers to a file is decided by the garbage collector and taken as given.',
     ['open files', 'reference counter'])

prop('P07', 'Every block continues where the one before ended',
     'The size of blocks does not change what is delivered: recursive filters and filter banks carry their state from block to block (per band), cumulative '
     'results go on from the previous block, and rows taken from stored data or angles begin where those of the previous block ended, without gap or overlap.',
     ['inputs', 'histories'], 'all loops over blocks, all filter calls, all slices that advance with the blocks',
     'Errors show only at block boundaries; tests compare few block sizes or a single block.',
     ['acoular/process.py', 'acoular/tprocess.py', 'acoular/sources.py', 'acoular/fprocess.py', 'acoular/spectra.py', 'acoular/tbeamform.py', 'acoular/signals.py', 'acoular/calib.py'],
     [('filters', 'acoular/tprocess.py:Filter.result'), ('filter banks', 'acoular/tprocess.py:FilterBank.result'), ('averages', 'acoular/tprocess.py:TimeCumAverage.result'),
      ('stored data', 'acoular/sources.py:TimeSamples.result')],
     'loop-carried dependence analysis with linear forms of row positions',
     'Decides that state is carried and positions advance, not that a beamformer interpolating between rows has enough of them.',
     ['blocks'])

prop('P06', 'Row counts of blocks',
     'Every processing object that delivers data block by block delivers every row exactly once, for every block size and every number of samples: no row is lost or '
     'repeated where blocks are cut, collected or combined, the last block is exactly as long as the rows that remain, and there is no block without rows.',
     ['inputs', 'histories'], 'all block sizes and numbers of samples, all paths through every generator',
     'The tests use few block sizes, mostly such that the number of samples is a multiple of it or the source is long enough.',
     ['acoular/process.py', 'acoular/tprocess.py', 'acoular/fprocess.py', 'acoular/sources.py', 'acoular/tbeamform.py'],
     [('block buffer', 'acoular/process.py:SamplesBuffer'), ('collecting rows', 'acoular/fprocess.py:RFFT.result')],
     'path-wise abstract interpretation of row counts as linear forms',
     'The number of samples that the time domain beamformers deliver is not decided: it depends on delays computed from the geometry.',
     ['blocks', 'rows'])

prop('P20', 'No operation fails on a name, attribute or call that does not exist',
     'Whatever object, option and branch is used, a computation never stops because it refers to something undefined: every name and every attribute of '
     'another processing object exists, every declared output can be computed, every delegated or observed attribute is there, and every call '
     'passes the arguments its target takes.',
     ['inputs', 'configurations'], 'all branches of all functions, for every concrete class that inherits them',
     'A wrong name in Python only fails when that line is executed, in the one class, option or error branch that reaches it.',
     ['acoular/fbeamform.py', 'acoular/tbeamform.py', 'acoular/sources.py', 'acoular/tprocess.py', 'acoular/grids.py', 'acoular/spectra.py', 'acoular/fprocess.py'],
     [('objects and their inputs', 'acoular/base.py'), ('compiled kernels', 'acoular/fastFuncs.py')],
     'name resolution, class-based type inference for attributes, argument binding',
     'Attributes of arrays and of external libraries are not typed; only objects of classes of the package are.',
     ['AttributeError', 'NameError', 'TypeError of a call'])

prop('P23', 'Several consumers of one source each get all blocks in order',
     'When several objects read from one shared source, each of them receives every block exactly once and in the order of the source, however their '
     'requests interleave and from whichever threads they come. If blocks would be lost because a buffer is full, every delivery ends with an error instead of '
     'silently skipping them, and a new run after the end starts without remnants of the previous one.',
     ['schedules', 'histories'], 'all interleavings of the requests of the registered objects, all fill levels',
     'A test reads with one schedule; a race or an overflow needs a particular interleaving of threads.',
     ['acoular/process.py'],
     [('distribution of blocks', 'acoular/process.py:SampleSplitter'), ('locked generator', 'acoular/process.py:LockedGenerator')],
     'lockset and check-then-act typestate over all paths of the delivery with its helpers',
     'Registration and removal of objects while blocks are delivered is not covered; nor is a restart while another consumer still holds blocks.',
     ['blocks received by each consumer'])

prop('P33', 'Every channel, source, band and grid point takes part',
     'In every computation over the elements of an array (channels, monopoles of a line, bands, microphones, grid points, snapshots) each element is '
     'processed: no loop leaves some of them out or runs past their end, no operation meant for all is applied only to the last one, and no result '
     'contains memory that was never written.',
     ['inputs', 'configurations'], 'all loops over positions, for every number of elements',
     'With one element, or with the numbers used in a test, a missing element or uninitialised memory often goes unnoticed.',
     ['acoular/sources.py', 'acoular/fastFuncs.py', 'acoular/tfastfuncs.py', 'acoular/spectra.py', 'acoular/tbeamform.py', 'acoular/environments.py', 'acoular/tprocess.py'],
     [('kernels', 'acoular/fastFuncs.py'), ('line sources', 'acoular/sources.py:LineSource')],
     'reaching definitions of loop variables, linear comparison of loop bounds with axis lengths, must-write coverage of uninitialised arrays',
     'Loops whose bounds are not linear in an axis length (triangular loops, data dependent bounds) are not decided.',
     ['result()', 'arrays returned by kernels'])

prop('P22', 'Input that does not fit is rejected before it has any effect',
     'Input that does not fit (channel counts that differ, samples that do not exist, positions outside a grid, sources that cannot be mixed, kernels or '
     'calibrations of another size) is rejected with an error before the first block or result is delivered, and input that fits is not rejected. '
     'An assignment that is rejected leaves the object as it was.',
     ['inputs', 'configurations'], 'all paths from the entry of a computation or assignment to its first effect',
     'Tests sample a few wrong inputs; a check that is skipped on one path, made too late or inverted for some inputs delivers wrong results silently.',
     ['acoular/sources.py', 'acoular/tprocess.py', 'acoular/fprocess.py', 'acoular/fbeamform.py', 'acoular/grids.py', 'acoular/calib.py', 'acoular/spectra.py', 'acoular/process.py'],
     [('validation', 'acoular/sources.py:SourceMixer.validate_sources'), ('channels', 'acoular/fbeamform.py:BeamformerBase._assert_equal_channels')],
     'must-analysis of rejecting conditions along all paths, with the truth of each condition evaluated for every relation of the two quantities it compares',
     'Only the listed demands are decided; whether a constant in a condition (a dimension, a limit) has the right value is not.',
     ['ValueError/OSError', 'result()', 'trait assignment'])


NOT_APPLICABLE = {}
