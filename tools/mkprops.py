#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,state=None,observe=None,hook=None):
    over=["fault_sequences" if o=="faults" else o for o in over]
    a={"files":files,"mechanism":[{"name":mechanism,"where":files[0]}]}
    if state: a["state"]=[{"name":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Background reader delivers the byte stream exactly",
 "Whatever the byte source, the sizes of its partial reads, the sequence of request sizes and the interleaving of producer and consumer, the concatenation of the chunks handed out by the background reader is exactly the byte stream of the source, in order, without loss, duplication or change. A chunk stays intact until the next request, a request is refused as exhausted only if fewer bytes than requested remain, and a refused request consumes nothing. A file source delivers the bytes of its file from the current position on, also after rewinding, reopening or moving it (read functions taken earlier included), and closes every file it opened.",
 ["schedules","inputs"],"all interleavings of worker and consumer, all partial-read patterns, all request-size sequences, all block sizes, all stream lengths, moves of the reader object between requests",
 "The unit test runs one real schedule; wrap-around, mirroring and overwrite errors need particular combinations of offsets and thread timing.",
 ["src/buffered_asynchronous_reader.cpp","src/buffered_asynchronous_reader.h","src/file_data_source.cpp"],
 "circular buffer of five blocks plus one mirrored block, refilled by a worker thread under one mutex and two condition variables","ring offsets, mirror block, end-of-file flag","bytes returned by each request")
p("P02","Background reader never hangs and never swallows a source error",
 "Every request to the background reader and every destruction or replacement of it finishes in a bounded number of steps of the threads involved, whatever the moment at which the source ends, fails or is slow. An error raised by the source reaches the requesting thread as that error, every later request fails too, and a lack of memory or threads when starting a reader is reported as an ordinary exception and leaks nothing.",
 ["schedules","faults"],"all interleavings, all positions at which the source throws or ends, all destruction points, spurious wake-ups, failing allocation and failing thread creation",
 "Lost wake-ups and shutdown races manifest only in narrow windows and only when the source fails at the same time.",
 ["src/buffered_asynchronous_reader.cpp"],
 "condition-variable handshake, exception_ptr hand-over, join in the destructor","read_exception, termination flag","return or exception of each request; completion of destruction")
p("P03","OSM PBF reading delivers exactly the elements of the file",
 "For every well-formed OSM PBF file, reading it delivers each node, way and relation exactly once with exactly the identifiers, coordinates, node lists, members and tags stored in the file, in file order, and in ordered mode all nodes before all ways before all relations. This holds for every way the operating system splits the reads, every interleaving of the reading, decompressing and consuming threads, every encoding variant the format allows (dense or individual nodes, compressed or raw blocks with or without optional fields, coordinate offsets and granularity, unknown blocks) and every subset of installed callbacks.",
 ["schedules","inputs","faults"],"all interleavings of three threads, all short-read patterns, all well-formed files, both reading modes",
 "No stable test reads a PBF file at all; one real run samples one schedule and one read pattern.",
 ["src/osm_decoder.cpp","src/buffered_asynchronous_reader.cpp","src/file_data_source.cpp","src/protobuf.cpp","include/routingkit/tag_map.h"],
 "file reader thread -> decompressor thread -> decoding on the calling thread; up to three passes with rewind in ordered mode","decompressor status word shared between threads, string table decoded in place","node, way and relation callbacks")
p("P04","Damaged or failing PBF input is reported, never hung on or misread",
 "If a PBF file is cut off inside a block, has a damaged compressed block, misstates the size of a block, lacks a required identifier, coordinate, size or block type or has arrays of different lengths, references entries that do not exist, contains blocks too large for the reader, has a second or late header block, or cannot be opened or read to the end, reading it terminates with an exception after delivering at most a correct prefix of what an undamaged read delivers. It never hangs, never reads outside its buffers, never reports success, and leaves no thread, open file or memory behind; an exception thrown by a callback comes out unchanged in the same way.",
 ["faults","crash_points","schedules","inputs"],"all truncation points, damage positions, read errors at any call, callback exceptions at any element, under all interleavings, in both reading modes",
 "Tests never damage inputs; hangs depend on which thread notices the failure first.",
 ["src/osm_decoder.cpp","src/buffered_asynchronous_reader.cpp","src/file_data_source.cpp","src/protobuf.h"],
 "exceptions cross two worker threads via the background reader; ordered mode waits for header information produced by a worker","decompressor status word, read_exception","exception or return of the read call, delivered elements, open descriptors, heap balance")
p("P05","OSM graph extraction matches the map data",
 "The routing graph extracted from an OSM PBF file is exactly the one described by the file and the profile: routing nodes, arcs between consecutive routing nodes with direction, way, distance in whole metres, geometry and coordinates, and forbidden turns, with arcs sorted by tail and then head; the ready-made car, pedestrian and bicycle loaders add travel times (distance divided by speed, limited to the infinity weight) accordingly. The result is the same for every thread schedule, read pattern and block layout of the file, and an extraction whose input fails throws instead of returning a graph.",
 ["schedules","inputs","faults"],"all maps, all block layouts, all interleavings of the reading threads, read errors in any pass of the scan",
 "No stable test loads a map; the combination of ID remapping, sorting and multi-pass reading is only sampled by example programs needing downloaded data.",
 ["src/osm_graph_builder.cpp","src/osm_simple.cpp","src/osm_profile.cpp","src/osm_decoder.cpp","src/id_mapper.cpp"],
 "two scans over the asynchronous PBF reader, rank/select ID mapping, sort of arcs, geometry permutation, turn-restriction expansion",None,"returned graph structures")
p("P06","Parallel customization equals sequential customization",
 "Customizing a metric with the parallel procedure yields exactly the metric that the sequential procedure yields, and hence shortest-path distances, for every graph, contraction order, weights, number of threads requested or actually granted, and interleaving of those threads. Several metrics may be customized at the same time from different threads with one shared parallelization object without influencing each other.",
 ["schedules","inputs"],"all interleavings at the granularity of single memory accesses, all thread counts requested and granted, all graphs, orders and weights including closed arcs and repeated re-customization of the same metric",
 "A lost update or a missing barrier corrupts one arc weight in rare interleavings; the comparison tests are not in the stable set and sample a single schedule.",
 ["src/customizable_contraction_hierarchy.cpp"],
 "OpenMP team: work-shared initialisation loop, barrier, per-level dynamic loops with a compare-and-swap minimum","metric forward/backward weights","metric contents and distances after customize")
p("P07","Concurrent contraction-hierarchy queries are exact and leave the index alone",
 "Any number of threads may query one contraction hierarchy at the same time, each with its own query object: every answer (distance, node path, arc path, used source and target, one-to-many and many-to-one distances, accumulated extra weights) is that of a true shortest path in the input graph, closed arcs and weights up to the infinity weight included. Queries never change the hierarchy or shared extra weights, and the variants that fill buffers of the caller allocate nothing where this is documented.",
 ["schedules","inputs"],"all interleavings at memory-access granularity of several querying threads, all graphs (parallel arcs, loops, zero weights, unreachable pairs), all source/target sets with initial distances",
 "Hidden shared mutable state gives wrong answers only when two queries overlap in a particular way.",
 ["src/contraction_hierarchy.cpp","include/routingkit/contraction_hierarchy.h","include/routingkit/id_queue.h","include/routingkit/timestamp_flag.h"],
 "bidirectional upward Dijkstra with stall-on-demand over an immutable index; per-query queues and timestamps","query object, shared index","query results, bytes of the index")
p("P08","Concurrent customizable-hierarchy queries are exact and leave the index alone",
 "Any number of threads may query customized metrics of one customizable contraction hierarchy at the same time, each with its own query object, also while other threads customize other metrics of the same hierarchy: every distance, node path, arc path, used source and target, and one-to-many or many-to-one distance is that of a true shortest path under the metric of that query. Queries never change the hierarchy or the metric.",
 ["schedules","inputs"],"all interleavings of querying and customizing threads, all graphs, orders and weights including closed arcs and parallel arcs",
 "Same as for plain hierarchies; additionally metrics are swapped while other threads are querying, which no test does.",
 ["src/customizable_contraction_hierarchy.cpp","include/routingkit/customizable_contraction_hierarchy.h"],
 "elimination-tree walks over an immutable topology and a per-metric weight pair","query object, metric, topology","query results, bytes of topology and metric")
p("P09","Query answers do not depend on the history of the query object",
 "After any history of operations on a query object (resets, new sources and targets, pinning and unpinning, repeated runs, switching to another index or metric, the index being replaced by another one, very many reuses, operations that failed for lack of memory), a freshly reset query answers exactly as a newly constructed one would. The same holds for the Dijkstra search object.",
 ["histories","faults"],"all operation sequences on one object, including tens of thousands of reuses and failed allocations in the middle",
 "Stale state survives only particular operation orders; tests use each object in one fixed order.",
 ["src/contraction_hierarchy.cpp","src/customizable_contraction_hierarchy.cpp","include/routingkit/dijkstra.h","include/routingkit/timestamp_flag.h","include/routingkit/id_queue.h"],
 "lazy cleaning: timestamps, touched-node lists, per-state arrays reused for pinned lists","query object state machine","query results after reset")
p("P10","Partial re-customization equals full customization",
 "After any history of weight changes, each announced before the next partial customization, the partially updated metric is identical to a metric customized from scratch with the current weights, also when updates are batched, repeated, reverted, applied to several metrics or interleaved with full and parallel customizations. The same holds for re-pointing a metric to another weight vector and for the hierarchy extracted from a metric by perfect witness search, whose distances equal those of the metric.",
 ["histories","schedules","inputs"],"all histories of weight changes and customization operations, all graphs and orders, parallel arcs and closed arcs",
 "A missed propagation needs a particular combination of increases and decreases over several steps.",
 ["src/customizable_contraction_hierarchy.cpp","include/routingkit/id_set_queue.h"],
 "queue of arcs processed in order with change propagation through triangles","update queue, metric weights","metric contents and distances")
p("P11","A vector save that reports success is complete; a load is faithful or fails",
 "If saving a vector, value, vector of strings (without zero characters) or bit vector returns normally, then loading the file returns exactly the saved data, whatever short writes, interruptions, full disks or write errors the operating system produced; otherwise the save throws. A load either returns exactly what the file contains or throws: a file that cannot be fully read, a file whose size does not fit the element type, and a bit vector file cut short at any point are rejected.",
 ["faults","crash_points","inputs"],"all data, all positions of write errors, full disk, short writes, read errors and crashes during the save",
 "Tests write to a healthy disk only.",
 ["include/routingkit/vector_io.h","src/vector_io.cpp"],
 "C++ file streams with buffered writes flushed on close",None,"return or exception of save and load, file contents")
p("P12","Saved contraction hierarchies survive storage faults or are rejected",
 "If saving a contraction hierarchy returns normally, loading the file yields a hierarchy with identical contents and answers, through files, standard streams and caller-supplied callbacks alike; a failing, full or interrupted disk or a throwing callback makes the save or load throw. A file cut short, extended, or written only partly because the process died at any point of the save (what was written before survives) is rejected; a stream or callback that supplies too few bytes is rejected too. The check for errors accepts every hierarchy that was built or loaded and reports one that was made inconsistent since.",
 ["faults","crash_points","inputs"],"all hierarchies, all fault positions on write and read, all crash points during the save",
 "Tests write to a healthy disk only; a torn file needs a crash in the middle of a save.",
 ["src/contraction_hierarchy.cpp","include/routingkit/vector_io.h"],
 "size-checked binary image with header, written through a callback",None,"return or exception of save and load, equality of hierarchies")
p("P13","A command-line tool that reports no error has produced the right output",
 "If a command-line tool ends without reporting an error (status zero and no error message), every file it was asked to write and the text it printed are complete and are the correct result for its inputs, whatever write errors, full disks, failed reads or exhausted memory happened during the run; short transfers and interrupted calls never matter. A tool whose input files or standard input cannot be read completely, are cut off, do not fit together (vectors of different lengths for one graph) or contradict themselves (nodes that do not exist, wrong counts, missing or repeated lines, numbers outside the range of their type) reports an error, and correct input is never refused.",
 ["faults","inputs"],"all inputs, all positions of read, write, open, seek, close and allocation failures in every file the tool touches, including standard input and output, all cut-off points of inputs that leave them inconsistent",
 "The tools have no tests at all, let alone on a failing disk.",
 ["src/encode_vector.cpp","src/decode_vector.cpp","src/convert_road_dimacs_graph.cpp","src/convert_road_dimacs_coordinates.cpp","src/export_road_dimacs_graph.cpp","src/compute_contraction_hierarchy.cpp","src/run_contraction_hierarchy_query.cpp","src/randomly_permute_nodes.cpp","src/run_dijkstra.cpp","src/generate_constant_vector.cpp","src/generate_random_node_list.cpp","src/generate_random_source_times.cpp","src/generate_test_queries.cpp","src/generate_dijkstra_rank_test_queries.cpp","src/compute_geographic_distance_weights.cpp","src/compute_nested_dissection_order.cpp","src/osm_extract.cpp","src/compare_vector.cpp","src/examine_ch.cpp","src/show_path.cpp","src/graph_to_dot.cpp","src/graph_to_svg.cpp","src/verify.cpp","include/routingkit/vector_io.h"],
 "mains over the vector I/O functions; errors are printed as a message",None,"exit status, error message, standard output, output files")
p("P14","Index building survives memory exhaustion, clock jumps, failing callbacks",
 "If memory runs out or a log callback throws at any point while an index, metric, spatial index, node order or component structure is built, copied or customized (empty graphs included), the operation throws that error, releases everything it had acquired and leaves all other objects usable and unchanged; repeating it afterwards succeeds. Logging and arbitrary jumps of the system clock never change the result of a build.",
 ["faults","inputs"],"all positions of the failing allocation or throwing callback, all clock behaviours, all inputs",
 "Tests never fail an allocation or move the clock.",
 ["src/contraction_hierarchy.cpp","src/customizable_contraction_hierarchy.cpp","src/bit_vector.cpp","src/id_mapper.cpp","src/geo_position_to_node.cpp","src/nested_dissection.cpp","src/timer.cpp"],
 "standard containers plus hand-written aligned storage in the bit vector",None,"exception or result, heap balance, repeated operation")
p("P15","Concurrent nearest-node lookups are exact",
 "Any number of threads may search one spatial node index at the same time: the nearest node found within a radius, and the set of all nodes within a radius, are those an exhaustive scan over all nodes finds, up to floating-point rounding (nodes at the same position are found together). Lookups never change the index.",
 ["schedules","inputs"],"all interleavings of several searching threads, all point sets including duplicates and points near the date line and the poles, all query positions and radii",
 "Tests query from a single thread only, on a fixed random point set.",
 ["src/geo_position_to_node.cpp","include/routingkit/geo_position_to_node.h","include/routingkit/geo_dist.h"],
 "vantage-point tree searched recursively",None,"lookup results, bytes of the index")
p("P16","Containers equal their mathematical models through any history",
 "Bit vectors, identifier mappers, the two priority queues over identifiers, timestamp flags and tag maps behave exactly like the set, mapping or queue they represent after any history of operations, for every size, including copies, moves, resizes, very many resets, and operations that failed for lack of memory: a failed bit-vector or mapper operation leaves its target unchanged and leaks nothing, and a failed tag map never invents an entry. Several threads may read one such object at the same time.",
 ["histories","faults","schedules"],"all operation sequences, all sizes and contents (in particular sizes around multiples of 64 and 512), every allocation failing, interleavings of concurrent readers",
 "Tests run a few fixed sequences at a few sizes and never with failing allocations; block boundaries, stamp wrap-around and state left by a failed operation are not reached.",
 ["src/bit_vector.cpp","src/id_mapper.cpp","src/bit_select.cpp","include/routingkit/id_queue.h","include/routingkit/id_set_queue.h","include/routingkit/timestamp_flag.h","include/routingkit/tag_map.h","include/routingkit/bit_vector.h","include/routingkit/id_mapper.h"],
 "512-bit blocks with zero padding bits, rank and select tables, 4-ary heap with positions, binary tree of bits, 16-bit stamps, hashed key buckets","padding bits, heap positions, stamps, bucket bounds","every query method after every operation")
# ---- not applicable for this family ----
p("N01","Permutation, sorting and grouping helpers are exact",
 "Every permutation, inversion, stable and unstable sort, grouping and filter helper computes exactly its mathematical definition for every input.",
 ["inputs"],"all inputs","tests sample a few inputs",
 ["include/routingkit/permutation.h","include/routingkit/sort.h","include/routingkit/inverse_vector.h","include/routingkit/filter.h","include/routingkit/min_max.h"],"pure functions on vectors")
p("N03","Geographic distance and graph utilities are exact",
 "Distance computations, strongly connected components and graph utilities equal their definitions for every input.",
 ["inputs"],"all inputs","tests sample a few inputs",
 ["include/routingkit/geo_dist.h","src/strongly_connected_component.cpp","src/graph_util.cpp"],"pure functions")
p("N04","Nested dissection orders and separators are valid",
 "Every computed separator separates the graph and every nested dissection order is a permutation of the nodes.",
 ["inputs"],"all graphs","tests sample a few graphs",
 ["src/nested_dissection.cpp","include/routingkit/nested_dissection.h"],"sequential inertial-flow computation")
p("N05","Tag interpretation follows the routing profiles",
 "The mapping from OSM tags to accessibility, direction, speed, name and turn restriction follows the documented profile for every combination of tags.",
 ["inputs"],"all tag sets","no test covers the profiles",
 ["src/osm_profile.cpp"],"pure functions on a tag map")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
