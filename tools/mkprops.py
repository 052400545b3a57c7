#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so ids stay stable)."""
import json, os
P = []
GE = "src/python/deepgnn/graph_engine/"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [f if f.startswith("src/") else GE + f for f in files],
         "mechanism": [{"name": n, "where": GE + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": GE + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Converter workers own disjoint partition ranges covering the whole graph",
 "For every requested partition count and every number of distributed conversion workers, each partition id from 0 to the count minus one is produced by exactly one worker, no worker produces an id outside that range, and a worker left without partitions writes nothing. A worker's partition files carry the ids it owns, starting at its offset.",
 ["configurations", "inputs"], "all partition counts >= 1, all worker counts >= 1, all worker indexes below the worker count",
 "Tests convert with one or two workers and a handful of partitions; uneven splits and more workers than partitions are a two-parameter infinite family.",
 ["snark/convert.py", "snark/dispatcher.py"],
 [("ceil split with clamped tail", "snark/convert.py: MultiWorkersConverter.__init__"), ("early return for empty workers", "snark/convert.py: MultiWorkersConverter.convert"), ("suffix = index + offset", "snark/dispatcher.py: PipeDispatcher.__init__")],
 observe=["worker partition offset and count", "suffix handed to each partition writer"])

prop("C02", "Input files and lines are split across workers with no loss and no overlap",
 "Whenever a set of input files (or the lines of one tuple file) is divided among workers, every file or line is handed to exactly one worker, each worker sees its share in sorted file order (or line order), and a setup with fewer files than workers is rejected instead of silently dropping data.",
 ["inputs", "configurations"], "all file counts, line counts, worker counts and worker indexes",
 "Unit tests use two or three files and at most two workers.",
 ["samplers.py", "_adl_reader.py"],
 [("strided slice of sorted glob", "samplers.py: get_files"), ("strided loop over sorted listing", "_adl_reader.py: TextFileIterator.get_worker_files"), ("line index modulo worker count", "samplers.py: FileTupleSampler._load_tuple_file, FileTupleSamplerV2._load_tuple_file")],
 observe=["returned file lists", "rows loaded per worker"])

prop("C03", "Every dispatched record reaches exactly one partition worker, in order",
 "During conversion each input record is delivered to exactly one partition worker, records for one worker arrive in dispatch order, and the end-of-work marker reaches each worker that must finish exactly once and only after all of its records. A worker writes every record it received before the marker, then publishes its summary exactly once, after its files are closed.",
 ["inputs", "histories"], "all record sequences, all worker counts, all partition functions",
 "Tests run one fixed small graph; loss, duplication or misrouting for other counts and orders is not exercised.",
 ["snark/dispatcher.py", "snark/converter/process.py"],
 [("round robin over pipes", "snark/dispatcher.py: PipeDispatcher.dispatch/join"), ("partition function and active set", "snark/dispatcher.py: QueueDispatcher.dispatch/join"), ("receive loop", "snark/converter/process.py: converter_process")],
 observe=["messages sent on each worker channel", "records passed to the partition writer", "summary messages"])

prop("C04", "Partition index files always point at the right node, edge and feature data",
 "For every sequence of nodes, edges and features written to a partition, the offsets stored for node i delimit exactly the features of node i, the neighbor offsets of node i delimit exactly its edges, each edge's feature offset delimits exactly its own features, and closing the partition adds the terminating entries that delimit the last ones. Node and edge records keep the id, type, weight and destination they were added with, and node sequence numbers are consecutive.",
 ["inputs", "histories"], "all sequences of node, edge and feature additions, any feature count and size including absent features",
 "convert_test checks byte dumps of a few fixed graphs; index arithmetic over arbitrary add sequences is never quantified.",
 ["snark/converter/writers.py"],
 [("node map records and consecutive counter", "snark/converter/writers.py: NodeWriter.add"), ("feature index before data", "snark/converter/writers.py: NodeFeatureWriter.add/close"), ("neighbor index from edge file position", "snark/converter/writers.py: EdgeWriter.add_node/add/close"), ("edge feature positions", "snark/converter/writers.py: EdgeFeatureWriter.add")],
 state=[("file positions", "bytes written so far to each partition file", "snark/converter/writers.py")],
 observe=["bytes of the partition files"])

prop("C05", "Feature payloads are stored so that the reader recovers exactly the input",
 "Every feature attached to a node or edge is stored in its own slot in order: absent or empty features take no bytes, dense arrays and strings are stored as their exact bytes, and sparse features are stored as coordinate count, coordinate dimension, coordinates and values, such that decoding gives back the same values. Sparse features whose coordinates and values disagree are rejected.",
 ["inputs"], "all feature lists: any mix of absent, dense, text and sparse features, any dtype, any dimensions",
 "Tests cover one or two shapes per dtype.",
 ["snark/converter/writers.py"],
 [("slot per feature, header then coordinates then values", "snark/converter/writers.py: convert_features")],
 observe=["returned payload list"])

prop("C06", "Partition statistics equal what was written to the partition",
 "After any sequence of records, a partition's node count, edge count, per-type counts and per-type weight totals equal exactly those of the records written, its feature counts are the largest number of features of any node and of any edge, the number of node and edge types is one more than the largest type seen, and the per-type lists always have one entry per type. Edges of one source node that arrive with decreasing type are rejected.",
 ["inputs", "histories"], "all record sequences, including edges without a preceding node, type gaps and repeated nodes",
 "Tests check totals of a fixed graph with two or three types.",
 ["snark/converter/writers.py", "snark/converter/process.py"],
 [("growing per-type lists", "snark/converter/writers.py: BinaryWriter.add"), ("summary message", "snark/converter/process.py: converter_process")],
 observe=["partition summary"])

prop("C07", "Temporal graphs record exactly the lifetime given for each edge",
 "In a temporal conversion each edge is stored with its own creation and removal time when given and with those of its source node otherwise, where a node without times exists from 0 and is never removed (-1); a non-temporal conversion stores no times. An edge created before its source node, or carrying a removal time later than its removed source node's, is rejected.",
 ["inputs", "histories"], "all combinations of present, absent and zero timestamps on nodes and edges, any order of records",
 "Temporal tests use a few fixed timestamps, none of them zero on removal.",
 ["snark/converter/writers.py"],
 [("defaulting and lifetime assertions", "snark/converter/writers.py: BinaryWriter.add"), ("timestamp file with watermark header", "snark/converter/writers.py: EdgeWriter")],
 observe=["edge timestamp file"])

prop("C08", "Alias tables reproduce every element's share of the total weight",
 "For every non-empty list of non-negative weights with a positive total, the alias table built from it gives each element exactly its proportional share of the total probability: every slot refers to valid elements, slot probabilities lie in [0, 1], and the probability mass an element receives over all slots equals its weight divided by the total. Node and edge sampler files contain one record per element of their type with those probabilities.",
 ["inputs"], "all weight vectors with positive sum, all lengths",
 "alias_test samples a few fixed distributions statistically.",
 ["snark/alias.py", "snark/converter/writers.py"],
 [("Vose table construction", "snark/alias.py: Vose._generate_table"), ("record emission", "snark/converter/writers.py: NodeAliasWriter.close, EdgeAliasWriter.close")],
 observe=["alias and probability arrays", "alias files"])

prop("C09", "Graph metadata totals equal the sum over all partitions",
 "After conversion the graph metadata's node and edge counts, per-type counts and per-partition weights equal the values reported by the partition workers, whatever order the workers finish in; every partition lists one value per graph-wide type (zero where it has none), and every partition has a sampler file for every graph-wide type unless sampler generation was skipped.",
 ["inputs", "schedules", "configurations"], "all sets of partition summaries with different type counts, all completion orders",
 "Tests convert one graph whose partitions finish in one order.",
 ["snark/dispatcher.py", "snark/convert.py", "snark/meta.py"],
 [("summation and padding", "snark/dispatcher.py: PipeDispatcher.join, QueueDispatcher.join"), ("metadata assembly", "snark/convert.py: MultiWorkersConverter.convert"), ("reader totals", "snark/meta.py: Meta.__init__")],
 observe=["meta.json", "sampler files in the output directory"])

prop("C10", "Merging worker metadata keeps every partition's weights and totals",
 "Merging the metadata files of distributed conversion workers, which agree on type counts, feature counts and watermark, yields one metadata file whose counts and per-type counts are the sums over workers and which lists every partition of every worker exactly once, with its own weights, under the id its binary files carry. Files with different format versions are refused.",
 ["inputs", "configurations"], "any number of workers, any number of partitions per worker, any weights",
 "The merger test uses two workers with one partition each.",
 ["snark/meta_merger.py"],
 [("per-file reader", "snark/meta_merger.py: Meta.__init__"), ("partition renumbering", "snark/meta_merger.py: Meta.get_partition"), ("sums", "snark/meta_merger.py: merge")],
 observe=["merged meta.json"])

prop("C11", "Graph files never collide and remote loading fetches all of them",
 "Within one output folder every kind of graph file has a name of its own for every partition, part and type, so no two outputs ever overwrite each other. Loading a remote graph requests, for every requested partition, every file the graph was written with that the loaded features, samplers and temporal data need.",
 ["inputs", "configurations"], "all partition ids, parts, types and combinations of features, samplers and timestamps",
 "Downloader tests fetch one non-temporal graph with one partition.",
 ["snark/meta.py", "snark/_downloader.py"],
 [("path builders", "snark/meta.py: _get_*_path"), ("download list", "snark/_downloader.py: download_graph_data")],
 observe=["file names", "list of downloaded files"])

prop("C12", "JSON input decodes to one node record and its edges in a fixed order",
 "Decoding one JSON line yields first the node with its id, type, weight and times, then every listed edge exactly once ordered by type, creation time, removal time (never-removed last, unlisted times as zero) and destination, with missing edge times taken from the node. Each feature appears at its declared index with the declared dtype and gaps are filled with absent features.",
 ["inputs"], "all JSON node objects: any number of edges, feature indexes, gaps, feature kinds and orders",
 "Tests decode a few hand-written objects.",
 ["snark/decoders.py"],
 [("node then sorted edges", "snark/decoders.py: JsonDecoder.decode"), ("slot filling", "snark/decoders.py: JsonDecoder._pull_features")],
 observe=["decoded records"])

prop("C13", "Delimited text input decodes to exactly the fields written in it",
 "A line in edge-list or TSV form decodes to the ids, type, weight, times and features written in it, using the configured defaults for fields the format leaves out; features keep their order, dtype and length, escaped delimiters inside text features are restored, and TSV neighbors come out once each, ordered by type then destination.",
 ["inputs", "configurations"], "all well-formed lines, all combinations of configured defaults and delimiters",
 "Tests decode a few fixed lines with two default configurations.",
 ["snark/decoders.py", "data/data_util.py"],
 [("token consumption", "snark/decoders.py: EdgeListDecoder.decode/_get_feature"), ("column defaults and ordering", "snark/decoders.py: TsvDecoder.decode"), ("edge-list writer", "data/data_util.py: get_edge_list_node")],
 observe=["decoded records"])

prop("C14", "The text reader returns every line once, independent of block layout",
 "Reading text files yields every non-empty line of the assigned files exactly once per epoch, in file order when not shuffled, with unchanged content, for every block size, reader thread count, batch size and queue size. All batches except the last are full, and with dropping enabled a short last batch is omitted.",
 ["inputs", "configurations", "schedules"], "all file contents, block sizes, thread counts, batch sizes, epochs and thread interleavings",
 "test_adl_reader uses fixed files with blocks much larger than lines.",
 ["_adl_reader.py", "samplers.py"],
 [("block splitting and merging", "_adl_reader.py: TextFileIterator._read_block_by_threads"), ("epoch and file advance", "_adl_reader.py: TextFileIterator._read_block"), ("batch assembly", "_adl_reader.py: TextFileIterator.__next__"), ("shuffle buffer", "samplers.py: TextFileSampler.__next__")],
 observe=["returned batches"])

prop("C15", "File-backed samplers emit every sample exactly once per epoch",
 "For every dataset size, batch size, epoch count and data-parallel setup, the batches of all data-parallel ranks together contain each sample exactly once per epoch (in file order within a rank when not shuffling), every batch has the full batch size, the last one padded with the backfill value, or omitted when dropping incomplete batches. A non-parallel sampler's reported length equals the number of batches it yields.",
 ["inputs", "configurations", "histories"], "all data sizes, batch sizes, epoch counts, data-parallel counts and ranks, drop and shuffle settings",
 "Tests use data of a few elements with hand-picked batch sizes.",
 ["samplers.py"],
 [("index, slice and backfill", "samplers.py: _NumpyIterator.__next__"), ("epoch permutation", "samplers.py: _NumpyIterator.__build_index"), ("length formula", "samplers.py: FileNodeSampler/FileEdgeSampler/FileTupleSampler/FileTupleSamplerV2")],
 observe=["batches", "reported length"])

prop("C16", "Range samplers visit each id of the range exactly once across ranks",
 "Iterating a range sampler over all workers and data-parallel ranks yields every id of the range exactly once; every batch has the full batch size and only positions past the end of the range hold the backfill id. Edge range samplers pair consecutive ids of a batch with the given edge type.",
 ["inputs", "configurations"], "all ranges, batch sizes, worker counts and data-parallel counts",
 "Tests iterate one range with one worker.",
 ["samplers.py"],
 [("strided range with backfill", "samplers.py: _RangeNodeIterator.__next__"), ("edge pairing", "samplers.py: _RangeEdgeIterator.__next__"), ("worker start", "samplers.py: RangeNodeSampler.__init__")],
 observe=["batches", "reported length"])

prop("C17", "CSV and graph-backed samplers produce exactly the batches they announce",
 "A CSV sampler's ranks together return every row of the file exactly once per pass, in file order within a rank, and its batches never exceed the batch size. A graph-backed node or edge sampler draws the announced number of batches, each of the requested size, type and strategy, where the announced number is the smallest one covering the requested samples over all workers and ranks.",
 ["inputs", "configurations", "histories"], "all row counts, batch sizes, epochs, worker counts and data-parallel counts",
 "Tests use tiny files with a single rank.",
 ["samplers.py"],
 [("strided row slice", "samplers.py: CSVNodeSampler.__next__"), ("batch budget", "samplers.py: GENodeSampler, GEEdgeSampler, _GEIterator")],
 observe=["batches", "reported length"])

prop("C18", "Prefetching delivers every query result exactly once and surfaces failures",
 "Under every interleaving of worker threads, a prefetching iterator returns exactly one query result for each sample the sampler produced, then stops, and never returns anything else. If the sampler or a query fails, the consumer gets an exception instead of a normal end of iteration.",
 ["schedules", "inputs", "fault_sequences"], "all orders in which results and the end marker reach the queue, all sample counts, a failure at any sample",
 "Tests run one small sampler; the order of the end marker relative to results is decided by the scheduler.",
 ["prefetch.py"],
 [("count-based termination", "prefetch.py: Generator.__next__"), ("end marker with count", "prefetch.py: _produce_func"), ("bounded submission", "prefetch.py: BoundedExecutor.submit")],
 observe=["items returned by the iterator", "exceptions raised by it"])

prop("C19", "Feature queries pass exactly the requested ids and sizes to the engine",
 "Every dense, sparse and text feature query hands the graph engine exactly the caller's ids in order as 64-bit integers, the feature ids (with sizes scaled to bytes for dense features), the timestamps if any were given, and an output buffer whose shape and byte length match the request. The caller's arrays are never modified and the results returned are independent copies of the engine's buffers.",
 ["inputs"], "all id arrays (any integer dtype and length), feature lists, dtypes and timestamps",
 "Native engine tests are not run here; argument marshalling is only checked through one or two sizes.",
 ["snark/client.py", "snark/local.py"],
 [("dense features", "snark/client.py: MemoryGraph.node_features/edge_features"), ("sparse and string features", "snark/client.py: node_sparse_features, node_string_features and edge variants"), ("callbacks copy buffers", "snark/client.py: _SparseFeatureCallback, _StringFeatureCallback, _NeighborsCallback")],
 observe=["arguments of the native calls", "returned arrays"])

prop("C20", "Neighbor and walk queries honour counts, defaults, types and timestamps",
 "Every neighbor, neighbor-count, sampling and random-walk request passes the engine the caller's nodes in order, the de-duplicated ascending edge types, the count, defaults, seed and timestamps given, and returns arrays shaped by node count and neighbor count (walk length plus one for walks) in the documented order. The client maps each documented strategy name to its sampling method with all options and rejects unknown names.",
 ["inputs", "configurations"], "all node arrays, edge type lists, counts, defaults, strategies and timestamp settings",
 "Native tests are not run here and fix most options to defaults.",
 ["snark/client.py", "snark/local.py"],
 [("marshalling", "snark/client.py: MemoryGraph.neighbors, neighbor_counts, *_sample_neighbors, lastn_neighbors, ppr_neighbors, random_walk"), ("strategy dispatch", "snark/local.py: Client.sample_neighbors"), ("type list normalisation", "snark/client.py: _make_sorted_list")],
 observe=["arguments of the native calls", "returned tuples"])

prop("C21", "Type counts and samplers use exactly the requested existing types",
 "The node or edge count of a set of types is the sum of the counts of the distinct existing types in it, each counted once. A sampler is created for exactly the requested types that exist and are non-empty (all of them when built directly for -1), fails when none remains, and repeated sampling with the same types and strategy reuses a sampler only for that same combination of types and strategy.",
 ["inputs", "histories"], "all type lists (duplicates, unknown and negative types), all sequences of sampling requests",
 "Tests sample one or two types with a single strategy per client.",
 ["snark/client.py", "snark/local.py"],
 [("counting", "snark/client.py: MemoryGraph.get_node_type_count/get_edge_type_count"), ("type filter", "snark/client.py: NodeSampler.__init__, EdgeSampler.__init__"), ("sampler cache", "snark/local.py: Client.sample_nodes/sample_edges")],
 observe=["counts", "native sampler creation arguments", "which sampler serves a request"])

prop("C22", "Engine failures always surface and retries follow the configured policy",
 "A native call that reports a non-zero status always raises in the caller instead of returning data. Remote clients retry a failing query up to the configured number of attempts with waits between the configured initial and maximum backoff, falling back to the documented defaults when the configuration is absent or unreadable, while local graphs do not retry.",
 ["inputs", "fault_sequences", "configurations"], "all status codes, all failure sequences, all retry configurations",
 "Tests never make the native library fail.",
 ["snark/client.py", "snark/server.py", "snark/meta.py"],
 [("status check", "snark/client.py: _ErrCallback"), ("policy parsing", "snark/client.py: _parse_grpc_options"), ("retry wiring", "snark/client.py: MemoryGraph.__init__, DistributedGraph.__init__")],
 observe=["exceptions", "attempt counts", "wait bounds"])

prop("C23", "Every partition is served by exactly one server of a cluster",
 "For every number of partitions and servers, starting each server of the cluster once makes every partition served by exactly one server, from the given data location, and the arguments given to the engine (partition ids, locations, address, certificates, options) match the request position by position. A local client loads exactly the partitions it was asked for.",
 ["configurations"], "all partition counts, server counts and indexes, all partition lists",
 "Tests start one or two servers with one partition each.",
 ["snark/distributed.py", "snark/server.py", "snark/local.py", "snark/client.py", "backends/snark/client.py"],
 [("strided assignment", "snark/distributed.py: Server.__init__"), ("argument arrays", "snark/server.py: Server.__init__, snark/client.py: MemoryGraph.__init__"), ("partition list", "snark/local.py: Client.__init__"), ("servers started by backends", "backends/snark/client.py: SnarkDistributedBackend.__init__")],
 observe=["native start arguments"])

prop("C24", "Each host of a training cluster starts one server with a unique index",
 "In every supported launch environment exactly one worker per host starts a graph server, server indexes are distinct and run from 0 to the number of hosts minus one, and every worker gets its own client rank and the common world size. Explicit command-line indexes override the environment.",
 ["configurations"], "all worker lists and orders, all ranks and local sizes of uniform clusters, all environments",
 "test_snark_client patches a few fixed environments.",
 ["backends/snark/client.py"],
 [("DDP and MPI ranks", "backends/snark/client.py: SnarkDistributedBackend._try_ddp/_try_mpi_or_horovod"), ("host scan", "backends/snark/client.py: SnarkDistributedBackend._extract_server_index")],
 observe=["server index, client rank, world size"])

prop("C25", "Discovered server addresses are ordered by server index",
 "When server addresses are discovered through the shared folder, the resulting address list contains exactly the addresses published by workers that start a server, and the address at position i is the one published with server index i, regardless of the order in which files are listed.",
 ["configurations", "schedules"], "all numbers of workers, all index assignments, all directory listing orders",
 "Tests run a single worker, where every order is right.",
 ["backends/snark/client.py"],
 [("publishing", "backends/snark/client.py: _AddressFinder"), ("collection", "backends/snark/client.py: _AddressReader")],
 observe=["server list"])

prop("C26", "Clients connect only after all servers started; servers outlive clients",
 "A synchronized client is created only after the start marker of every server was seen, is created at most once, and fails with a timeout (removing its own marker) otherwise. A server publishes its marker only after it started, refuses to start over a stale marker, and on shutdown waits until no client marker remains or the timeout expired.",
 ["schedules", "fault_sequences", "histories"], "all orders of marker appearance and disappearance, all timeouts, all server counts",
 "test_synchronized runs a few fixed schedules with real sleeps.",
 ["backends/snark/synchronized.py"],
 [("server wait", "backends/snark/synchronized.py: SynchronizedClient._wait_for_servers/client"), ("client wait", "backends/snark/synchronized.py: _ServerProcess._wait_for_clients/join"), ("marker files", "backends/snark/synchronized.py: _create_lock_file/_delete_lock_file")],
 observe=["marker files", "construction and reset calls"])

prop("C27", "Skip-gram generation yields exactly the pairs inside the window",
 "For every batch of paths and every left and right window size, skip-gram generation returns, path by path and position by position, exactly one pair for every ordered pair of positions whose distance lies within the window on that side, in ascending context order, and the announced size equals the number of pairs per path.",
 ["inputs"], "all path counts, path lengths, left and right window sizes",
 "Tests use symmetric windows on one or two short paths.",
 ["graph_ops.py"],
 [("window loops", "graph_ops.py: gen_skipgrams"), ("size formula", "graph_ops.py: get_skipgrams_size")],
 observe=["returned pairs"])

prop("C28", "Edge sampling and multi-hop expansion keep source-neighbor alignment",
 "Sampled out-edges list for each input node in order its own sampled neighbors with their edge types, and each hop of a multi-hop expansion samples from exactly the nodes produced by the previous hop with that hop's edge types and count, so result k has the input size times the product of the first k counts. Full neighbor expansion returns adjacency entries that connect each source with its actual neighbors and weights, padded only after the real entries.",
 ["inputs"], "all node arrays, counts, edge types, hops, and all neighbor results of the engine",
 "Tests use one or two hops over a tiny fixed graph.",
 ["graph_ops.py", "multihop.py"],
 [("repeat and flatten", "graph_ops.py: sample_out_edges"), ("hop chaining", "multihop.py: sample_fanout"), ("index construction and padding", "multihop.py: _full_neighbor, get_neighbor")],
 observe=["returned arrays", "engine requests"])

prop("C29", "Extracted subgraphs contain exactly the edges of the visited nodes",
 "The neighbor subgraph of a set of seed nodes with one or more hops contains exactly the nodes within that many steps of a seed, each once. Its edges are exactly the engine's edges that start at a node within one step fewer, plus their reverses and one self loop per node when requested, where every adjacency entry is 0 or 1 and an edge list with such additions lists each connection once. The returned seed positions point at the seeds in input order.",
 ["inputs"], "all graphs, seed arrays (including repeated seeds), hop counts and option combinations",
 "Tests check one fixed graph.",
 ["graph_ops.py"],
 [("edge assembly and renumbering", "graph_ops.py: sub_graph")],
 observe=["returned nodes, adjacency and seed positions"])

prop("C30", "Forest-fire samples are subgraphs of the input of the requested size",
 "A forest-fire sample contains only nodes and edges of the input graph, and it never exceeds the requested number of nodes by more than one and reaches at least that number when it returns. The input graph is left unchanged.",
 ["inputs", "schedules"], "all directed graphs, sample sizes and random choices",
 "Tests use one random graph and seed.",
 ["snark/preprocess/sampler/forest_fire.py"],
 [("guarded edge additions", "snark/preprocess/sampler/forest_fire.py: __forest_fire_helper")],
 observe=["returned graph"])

prop("C31", "Train/test splitting labels every node once in the requested proportion",
 "Splitting a set of node ids labels every id exactly once as training or test, with the number of training ids equal to the rounded-down requested share, the lowest ids first when selection is not random, and the node list files written from it contain every id in exactly one of the two files.",
 ["inputs"], "all id sets, ratios in [0, 1] and both selection modes",
 "Tests build one packaged dataset.",
 ["data/data_util.py"],
 [("label list", "data/data_util.py: select_training_test_nodes"), ("file writer", "data/data_util.py: write_node_files")],
 observe=["labels", "node list files"])

prop("C32", "Uploaded lines are queued once each and in order, spread over uploaders",
 "Writing lines through the data lake uploader queues every line exactly once, in order within chunks of at most the configured size, chunks are assigned to upload processes in rotation, and each uploader thread writes its chunks in order to files holding at most the configured number of chunks, closing every file it opened.",
 ["inputs", "configurations"], "all line counts, chunk sizes, process counts, file size limits",
 "Uploader tests need a live store and are not run.",
 ["adl_uploader.py"],
 [("chunking", "adl_uploader.py: AdlDataWriter.writelines"), ("file rotation", "adl_uploader.py: MultiThreadsAdlDataWriter._create_worker")],
 observe=["queue contents", "files opened, written and closed"])

prop("C33", "A dataset wires its sampler and query function without altering batches",
 "A dataset builds its sampler with exactly the constructor arguments given for it (explicit options first, then the dataset's own settings, the graph wherever a graph is expected), and iterating yields, in sampler order, the query result of each sampler batch and nothing else; its length is the sampler's length.",
 ["inputs", "configurations"], "all sampler signatures, option sets and sampler outputs",
 "Tests use two sampler classes with fixed arguments.",
 ["graph_dataset.py"],
 [("argument injection", "graph_dataset.py: DeepGNNDataset.init_sampler"), ("iterator", "graph_dataset.py: DeepGNNDataset._DeepGNNDatasetIterator")],
 observe=["sampler arguments", "yielded items"])

prop("C34", "Opening graph metadata restores exactly what was written in it",
 "Opening a graph's metadata yields the node, edge, per-type, type, feature and partition counts, version and watermark written in it, and per-type weights that are the sums over all partitions. Metadata of a remote graph is copied once from that graph's folder and read from the copy, and missing, unversioned or uncopyable metadata is reported as an error.",
 ["inputs"], "all metadata documents with any number of partitions and types, local and remote folders",
 "Tests open the metadata of a few one- and two-partition graphs and mostly check counts.",
 ["snark/meta.py"],
 [("reading the document", "snark/meta.py: Meta.__init__"), ("choice of folder", "snark/meta.py: download_meta")],
 observe=["attributes of the opened metadata", "copy requests"])

prop("C35", "A bundled citation graph holds exactly the papers and citations listed",
 "Building a bundled full citation graph numbers the listed papers from 1 in file order, each with its listed features and a label number shared exactly by the papers with the same label. Two papers are linked in both directions, once, exactly when a citation between them is listed, by the training kind of link when both are training nodes and by the other kind otherwise. The graph is read from the bundled or downloaded archive, written with the requested number of partitions and opened with all of them.",
 ["inputs", "configurations"], "all paper and citation lists, numbers of features, splits with a training node and numbers of partitions of both full citation graphs",
 "Tests build the two packaged datasets with one partition and check counts and one node; they need the native library and fail without it.",
 ["data/data_util.py", "data/cora.py", "data/citeseer.py"],
 [("reading papers and citations", "data/cora.py: CoraFull._load_raw_graph"), ("reading papers and citations", "data/citeseer.py: CiteseerFull._load_raw_graph"), ("text of a node", "data/data_util.py: get_edge_list_node"), ("building sequence", "data/data_util.py: Dataset.__init__")],
 observe=["graph text given to the converter", "metadata written", "partitions opened"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
