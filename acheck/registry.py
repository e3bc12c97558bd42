"""Which rules decide which property."""

from . import p01, p02, p05, p08, p09, p16, p17, p24, p25, p27, p28, p29, p03, p04, p11, p10, p07, p06, p20, p23, p33, p22, p29b, windows, rowloops

PROPERTIES = {
    'P01': {'rules': [p01.check_coverage, p01.check_getters, p01.check_function, p01.check_nodes, p01.check_summaries],
            'explanation': 'interprocedural read sets of every output of every class with a digest, compared with the depends_on closure of that digest'},
    'P02': {'rules': [p02.check_fresh, p02.check_lazy_state, p02.check_handlers, p02.check_setters],
            'explanation': 'read sets of every cached Property compared with the listeners traits installs for its depends_on list; state set up by getters is read after them'},
    'P24': {'rules': [p24.check],
            'explanation': 'definite-assignment dataflow over every function, with correlated conditions and the declared values of option traits'},
    'P28': {'rules': [p28.check, p28.check_declared],
            'explanation': 'read sets of all outputs of a class compared with the parameters its digest declares'},
    'P29': {'rules': [p29.check, p29b.check], 'explanation': 'index-space and must-store dataflow over the frequency loops of all beamformers and of the point spread function'},
    'P05': {'rules': [p05.check],
            'explanation': 'interprocedural alias and effect analysis of arrays: blocks of a source, arrays of traits and cached properties'},
    'P08': {'rules': [p08.check],
            'explanation': 'stores to attributes in everything reachable from results, getters and handlers, through aliases and helpers'},
    'P09': {'rules': [p09.check_entropy, p09.check_repeat, p09.check_shared],
            'explanation': 'sources of indeterminacy, state that survives a run, and state shared between objects'},
    'P16': {'rules': [p16.check_literals, p16.check_values, p16.check_tables, p16.check_branches],
            'explanation': 'literals compared with options against their declared values; code specialised for each value compared; completeness of tables'},
    'P17': {'rules': [p17.check], 'explanation': 'exception flow of StopIteration through generators and the helpers they call'},
    'P25': {'rules': [p25.check], 'explanation': 'truth value tests of traits and parameters that are None unless a number is given'},
    'P27': {'rules': [p27.check], 'explanation': 'kinds of all values that enter a digest, and what the functions computing digests use'},
    'P03': {'rules': [p03.check],
            'explanation': 'each caching class is specialised for every policy; typestate of the cache entry and taint of references into the file along all paths'},
    'P04': {'rules': [p04.check],
            'explanation': 'all paths of the caching generator and its helpers, for each policy and each initial state of the entry, with an interruption at every request and every yield'},
    'P11': {'rules': [p11.check],
            'explanation': 'typestate of every handle, lock and status flag along all paths of all functions, with an exceptional exit at every call and yield'},
    'P10': {'rules': [p10.check],
            'explanation': 'every path of a request for every situation (held file, open files, policy, existence), and the lock held at every change of the shared tables'},
    'P07': {'rules': [p07.check, windows.check_shift, windows.check_reset, rowloops.check_advance, rowloops.check_fresh_rows],
            'explanation': 'loop-carried state of every filter and accumulator, and the linear positions of slices in consecutive iterations, of every loop over blocks'},
    'P06': {'rules': [p06.check, windows.check_shift, windows.check_buffers, windows.check_early_end, rowloops.check_fresh_rows],
            'explanation': 'the number of rows of every buffer, block and counter, as linear forms over the paths of every generator'},
    'P20': {'rules': [p20.check],
            'explanation': 'scope analysis of every name, class-based attribute lookup per concrete class, binding of the arguments of every call with a known target'},
    'P23': {'rules': [p23.check],
            'explanation': 'path-sensitive typestate of the delivery loop: lock held, emptiness tested under the lock, overflow tested before blocks are lost, end and restart'},
    'P33': {'rules': [p33.check, rowloops.check_counters, rowloops.check_axis, rowloops.check_offsets, rowloops.check_kernels],
            'explanation': 'loop variables used after their loop, ranges compared with the axis they index, coverage of arrays created without values'},
    'P22': {'rules': [p22.check],
            'explanation': 'rejecting conditions on every path before the first effect; nothing stored before everything that can reject an assignment'},
}
