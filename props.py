"""Which scenarios decide which property: (build, scenario, share of the time). Build t: every memory access is a
preemption point, allocations can fail; build f: the same for the fallback code of other platforms; build a: AddressSanitizer, preemption at synchronisation operations."""
PROPS = {
 'P01': {'files': ['reader'], 'scenarios': [('t', 'reader_stream', 3), ('a', 'reader_stream', 1), ('a', 'file_source', 1)]},
 'P02': {'files': ['reader'], 'scenarios': [('t', 'reader_faults', 3), ('a', 'reader_faults', 1)]},
 'P03': {'files': ['osmread'], 'scenarios': [('t', 'pbf_read', 4), ('a', 'pbf_read', 2), ('f', 'pbf_read', 1)]},
 'P04': {'files': ['osmread'], 'scenarios': [('t', 'pbf_damage', 3), ('a', 'pbf_damage', 2)]},
 'P05': {'files': ['osmgraph'], 'scenarios': [('t', 'osm_graph', 2), ('a', 'osm_graph', 1)]},
 'P06': {'files': ['cchq'], 'scenarios': [('t', 'cch_parallel', 4), ('a', 'cch_parallel', 1), ('f', 'cch_parallel', 1)]},
 'P08': {'files': ['cchq'], 'scenarios': [('t', 'cch_queries', 3), ('a', 'cch_queries', 2)]},
 'P09': {'files': ['history'], 'scenarios': [('t', 'history_ch', 2), ('a', 'history_ch', 1), ('t', 'history_cch', 2), ('a', 'history_cch', 1), ('t', 'history_dijkstra', 1), ('a', 'history_dijkstra', 1)]},
 'P10': {'files': ['cchq'], 'scenarios': [('t', 'cch_partial', 2), ('a', 'cch_partial', 2)]},
 'P11': {'files': ['store'], 'scenarios': [('t', 'vector_store', 2), ('a', 'vector_store', 1)]},
 'P12': {'files': ['store'], 'scenarios': [('t', 'ch_store', 2), ('a', 'ch_store', 1)]},
 'P14': {'files': ['build'], 'scenarios': [('t', 'build_faults', 2), ('a', 'build_faults', 1)]},
 'P15': {'files': ['geo'], 'scenarios': [('t', 'geo_lookup', 2), ('a', 'geo_lookup', 1)]},
 'P13': {'files': ['tools'], 'scenarios': [('t', 'cli_tools', 3), ('a', 'cli_tools', 2)], 'tools': ['compare_vector', 'compute_contraction_hierarchy', 'compute_geographic_distance_weights', 'compute_nested_dissection_order', 'convert_road_dimacs_coordinates', 'convert_road_dimacs_graph', 'decode_vector', 'encode_vector', 'examine_ch', 'export_road_dimacs_graph', 'generate_constant_vector', 'generate_dijkstra_rank_test_queries', 'generate_random_node_list', 'generate_random_source_times', 'generate_test_queries', 'graph_to_dot', 'graph_to_svg', 'osm_extract', 'randomly_permute_nodes', 'run_contraction_hierarchy_query', 'run_dijkstra', 'show_path']},
 'P16': {'files': ['containers'], 'scenarios': [('t', 'bit_vectors', 3), ('a', 'bit_vectors', 2), ('t', 'id_maps', 2), ('a', 'id_maps', 1), ('t', 'queues', 2), ('a', 'queues', 1), ('t', 'tag_maps', 1), ('a', 'tag_maps', 1), ('f', 'bit_vectors', 1), ('f', 'id_maps', 1)]},
 'P07': {'files': ['chq'], 'scenarios': [('t', 'ch_queries', 3), ('a', 'ch_queries', 2)]},
}
FEATURES = {
 'reader_stream': {0: 'reader object moved while in use', 1: 'a request was refused at the end of the data', 2: 'the ring buffer wrapped around', 3: 'other readers at the same time'},
 'reader_faults': {0: 'starting a reader failed', 1: 'a working reader was replaced', 2: "the source's error reached the consumer", 3: 'reader reset explicitly', 4: 'other readers at the same time'},
 'pbf_read': {0: 'file larger than the pipeline buffers', 1: 'unordered file read in order', 2: 'file without header block', 3: 'coordinate offsets', 4: 'individually encoded nodes', 5: 'no element expected', 6: 'speed test', 7: 'sizes of real files', 8: 'two files at once'},
 'pbf_damage': dict([(i, n) for i, n in enumerate(['cut off', 'cut off (2)', 'damaged compressed data', 'invalid contents', 'read error', 'open or seek error', 'throwing callback', 'arbitrary damage', 'thread creation fails', 'allocation fails'])] + [(16 + i, 'content damage %d' % i) for i in range(1, 23)] + [(19 + i, 'content damage %d' % i) for i in range(23, 33)] + [(39, 'misplaced header'), (62, 'blocks larger than the buffer')] + [(40, 'reading threw'), (41, 'reading succeeded')]),
 'ch_queries': {0: 'more than 100 nodes', 1: 'extra weights', 2: 'several client threads', 3: 'point to point', 4: 'pinned targets', 5: 'pinned sources', 6: 'more pins than nodes', 7: 'thousands of nodes'},
 'cch_parallel': {0: 'a level with more than 512 arcs', 1: 'a level with more than 256 arcs', 2: 'several clients', 3: 'filtered hierarchy', 4: 'fewer threads granted than asked for', 5: 'thousands of nodes', 6: 'hundreds of levels'},
 'cch_queries': {0: 'several client threads', 1: 'filtered hierarchy', 2: 'parallelization object', 3: 'point to point', 4: 'pinned targets', 5: 'pinned sources', 6: 'concurrent customization', 7: 'more pins than nodes', 8: 'thousands of nodes', 9: 'hundreds of levels'},
 'cch_partial': {0: 'weights changed', 1: 'several changes in one update', 2: 'parallel customization', 3: 'metric pointed at other weights', 4: 'updater switched hierarchy', 5: 'perfect customization', 6: 'concurrent updates', 7: 'default construction in reused storage', 8: 'hundreds of nodes', 9: 'hundreds of levels'},
 'history_ch': {0: 'query abandoned', 1: 'query after a failed operation', 2: 'query object copied or moved', 3: 'more than 65530 reuses', 4: 'constructed in reused storage', 5: 'an allocation failed', 6: 'index replaced in place'},
 'history_dijkstra': {0: 'an allocation failed', 1: 'many reuses', 2: 'search abandoned', 3: 'graph changed'},
}
_SF = ['no fault', 'short writes and interruptions', 'write error', 'full disk', 'open error', 'tail lost on close', 'crash', 'lack of memory']
_LF = ['no fault', 'short reads and interruptions', 'read error', 'seek error', 'open error', 'lack of memory']
FEATURES['vector_store'] = dict([(i, 'save: ' + n) for i, n in enumerate(_SF)] + [(8, 'several clients'), (9, 'saved before the crash of another client'), (10, 'saved although faults were planned'), (11, 'up to megabytes'), (15, 'four gigabytes too long'), (12, 'file that must be rejected'), (13, 'load threw'), (14, 'load returned')] + [(16 + i, 'load: ' + n) for i, n in enumerate(_LF)])
FEATURES['ch_store'] = dict([(0, 'save_file'), (1, 'stream'), (2, 'callback'), (12, 'crash while saving'), (24, 'load threw'), (25, 'load returned'), (26, 'four gigabytes too long'), (27, 'thousands of nodes'), (28, 'inconsistent hierarchy'), (11, 'old file of up to megabytes')] + [(3 + i, 'save: ' + n) for i, n in enumerate(_SF)] + [(16 + i, n) for i, n in enumerate(['load_file', 'stream', 'stream with size', 'callback', 'callback with size'])])
FEATURES['osm_graph'] = dict([(i, 'no fault') for i in range(6)] + [(6, 'read error'), (7, 'open fails'), (8, 'thread creation fails'), (9, 'allocation fails'), (10, 'file cut off'), (11, 'seek fails'), (12, 'two extractions at once'), (13, 'extraction threw'), (14, 'graph compared'), (16, 'general'), (17, 'car'), (18, 'pedestrian'), (19, 'bicycle'), (24, 'restriction in force'), (25, 'via node derived'), (26, 'restriction resolved by direction'), (27, 'more than 20 arcs'), (28, 'full geometry'), (29, 'large map'), (30, 'identifiers above 2^32')])
FEATURES['geo_lookup'] = dict(enumerate(['city', 'country', 'world', 'date line', 'pole', 'duplicates', 'several clients', 'allocation failure', 'some nodes found', 'none within radius', 'nearest node found', 'town at the origin', 'one place', 'thousands of nodes']))
FEATURES['build_faults'] = dict(list(enumerate(['hierarchy', 'given order', 'customizable hierarchy', 'copy of a customizable hierarchy', 'metric', 'perfect customization', 'parallelization object', 'partial customization', 'nested dissection', 'separator decomposition', 'spatial index', 'extra weight', 'components'])) + [(16, 'clock jumps'), (17, 'two builds at once'), (18, 'empty graph'), (19, 'hundreds of nodes'), (20, 'build returned'), (21, 'out of memory reported'), (22, 'callback error reported')])
FEATURES['bit_vectors'] = {9: 'an operation ran out of memory', 2: 'resize filling', 3: 'resize uninitialised', 4: 'made large enough', 5: 'combined', 6: 'concurrent readers', 7: 'up to 200000 bits', 8: 'more than 2^32 bits'}
FEATURES['id_maps'] = {0: 'concurrent readers', 9: 'an operation ran out of memory', 2: 'built again after a failure', 3: 'size is a multiple of 512', 4: 'all identifiers mapped', 5: 'up to 300000 identifiers'}
FEATURES['queues'] = {0: 'priority queue', 1: 'identifier set', 9: 'an operation ran out of memory', 2: 'timestamp flags', 4: 'cleared', 5: 'copied, swapped or moved', 6: 'about 65536 resets at once'}
FEATURES['tag_maps'] = {0: 'concurrent readers', 1: 'a build ran out of memory', 2: 'cleared', 3: 'more than 65536 tags'}
FEATURES['cli_tools'] = dict(list(enumerate(['encode_vector', 'decode_vector', 'compare_vector', 'convert_road_dimacs_graph', 'convert_road_dimacs_coordinates', 'export_road_dimacs_graph', 'generate_constant_vector', 'generate_random_node_list', 'generate_random_source_times', 'generate_test_queries', 'generate_dijkstra_rank_test_queries', 'randomly_permute_nodes', 'graph_to_dot', 'graph_to_svg', 'run_dijkstra', 'run_contraction_hierarchy_query', 'compute_contraction_hierarchy', 'compute_geographic_distance_weights', 'compute_nested_dissection_order', 'examine_ch', 'show_path', 'osm_extract'])) + [(32 + i, n) for i, n in enumerate(['no fault', 'no fault', 'no fault', 'write error', 'full disk', 'close fails', 'open fails', 'read error', 'seek error', 'allocation fails', 'input cut off', 'standard input fails', 'standard output fails', 'no fault'])] + [(50, 'ended without reporting an error'), (51, 'reported an error'), (52, 'large input')])
FEATURES['file_source'] = dict(enumerate(['replaced', 'rewound', 'size asked', 'move assigned', 'move constructed', 'a system call failed']))
FEATURES['history_cch'] = FEATURES['history_ch']
COMPONENTS = {
 '*': {'real': ['all RoutingKit sources the scenario calls, compiled from /repo', 'libstdc++ streams, threads and containers', 'zlib'],
       'stub': ['thread scheduling, mutexes, condition variables and clocks (simulator)', 'OpenMP runtime (simulator)', 'allocator failure decisions (simulator, real heap)', 'file system calls: real files in a scratch directory behind a fault-injecting layer']},
}
_N = ' A clean batch is evidence from the sampled runs, not a proof. Trusted: the simulator (sim/), the oracles in scen/, gcc, libstdc++, zlib; memory is assumed sequentially consistent.'
NOTES = {
 'P01': 'Real reader code; every interleaving of worker and consumer is chosen by the simulator at single memory accesses, block sizes 1 to 200, all partial-read modes, short file reads, spurious wake-ups; every delivered chunk compared with the stream while it is held.' + _N,
 'P02': 'Real reader code; sources that throw at any call, destruction and replacement at any point, failing thread creation and allocation; a deadlock or livelock is detected by the scheduler itself, errors and leaks are compared with what was injected.' + _N,
 'P03': 'Real reading, decompressing and decoding threads; random maps in random encodings (own encoder written from the format definition), tiny block sizes so that the ring buffers wrap, short reads; every delivered element is compared with the map.' + _N,
 'P04': 'Real reading pipeline on files cut, flipped or invalid at drawn places, failing open/read/seek, thread creation and allocation, throwing callbacks; success, prefix, termination, open files and leaks are checked, memory errors by AddressSanitizer and guard words.' + _N,
 'P06': 'Real customization code on the simulated OpenMP runtime: every team size, assignment of iterations and interleaving at single memory accesses is drawn; the metric is compared arc by arc with sequential customization and with an independent reference, including several clients at once.' + _N,
 'P07': 'Real hierarchy construction and queries from several simulated client threads with drawn interleavings, over random graphs (parallel arcs, loops, zero and huge weights); distances, paths, pinned queries and extra weights compared with an independent shortest-path computation.' + _N,
 'P08': 'Real customizable hierarchies and queries from several simulated client threads while other threads customize other metrics; compared with an independent shortest-path computation.' + _N,
 'P09': 'Random histories of operations on reused, abandoned, copied and moved query objects, with allocations failing at drawn points, in dirty storage and across wrap-around of internal stamps; each answer compared with the one for a fresh object and the reference.' + _N,
 'P10': 'Random sequences of weight changes, partial updates, re-pointing, perfect customization and parallel customization, concurrently on several metrics; compared with a metric customized from scratch.' + _N,
 'P11': 'Real vector files on a disk layer that cuts transfers short, interrupts, fails, fills up, loses the tail on close or freezes at a crash; several clients saving at once; the file and every load compared with the bytes that must be there.' + _N,
 'P12': 'Real hierarchy files, streams and callbacks on the same disk layer, callbacks throwing at any call; the loaded hierarchy compared field by field and by queries with the saved one.' + _N,
 'P05': 'Real scanning, decoding and graph building on random maps in random encodings, with drawn interleavings, short reads, read, open, seek, thread and allocation failures and truncated files; graph, geometry and forbidden turns compared with a reference extraction written from the definition.' + _N,
 'P13': 'All 22 real command-line programs, each loaded as a shared object and run in-process on files behind the fault-injecting disk layer, standard input and output included, with failing allocations and inputs cut off; every run that reports nothing must have the output an independent computation (or, for random generators, an undisturbed run plus a validity check) gives. Not included: inputs that are wrong but consistent.' + _N,
 'P15': 'Real spatial index searched by several simulated client threads with drawn interleavings and failing allocations; results compared with an exhaustive scan in double precision, with a tolerance for single-precision rounding (10 m; 6 km for point sets spanning nearly opposite sides of the earth).' + _N,
 'P14': 'Real construction, copying and customization with the n-th allocation failing, callbacks throwing at a drawn call, the clock jumping by up to an hour and a second build running concurrently; the outcome is the exact error or exactly the undisturbed result, heap balance and repetition are checked.' + _N,
 'P16': 'Real containers driven by random operation histories with failing allocations, dirty fresh memory, more than 65536 resets and concurrent reader threads; after every operation compared with models built on standard containers, heap balance checked, memory errors by AddressSanitizer and guard words.' + _N,
}
