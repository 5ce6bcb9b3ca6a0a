NA = {}
NOTES = ("Specifications are TLA+ (TLC) in specs/; lib/ drives TLC and turns its transition graphs and simulated "
         "behaviours into runs of the real code (lib/report.py replay), and checks recorded runs back against the "
         "specifications. ./run ID TIER runs one check.")

# ---------------------------------------------------------------- KV memory
prop("K01", "KV-cache slots and request slots are handed out exclusively",
     "A slot (KV-cache token slot or page, request slot, recurrent-state snapshot slot) that has been handed out is not handed out again until it has been given back, and the reserved padding slot is never handed out. "
     "An allocation either returns exactly the requested number of distinct in-range slots (whole pages when paging is on) or fails without changing anything, and it fails only when fewer than the requested slots are free. "
     "The number reported as available always equals capacity minus what is outstanding, immediate and batched frees included, and clearing makes everything available again.",
     ["histories", "configurations"],
     "every sequence of alloc / free / batched free / clear / table-write operations, every pool size, page size and sorting mode",
     "The existing tests never allocate or free from these pools: aliasing appears only after particular alloc/free interleavings (partial merges, page de-duplication, batched frees).",
     [M + "memory_pool.py"],
     [("dual free list with lazy merge", M + "memory_pool.py:TokenToKVPoolAllocator.alloc/free/merge_and_sort_free"),
      ("batched free", M + "memory_pool.py:TokenToKVPoolAllocator.free_group_begin/end"),
      ("request slot free list", M + "memory_pool.py:ReqToTokenPool.alloc/free"),
      ("state snapshot slots", M + "memory_pool.py:GDNPool.alloc_track_slot/free_track_slot")],
     [("free lists", "slots not handed out", M + "memory_pool.py")],
     ["return values of alloc", "available_size()", "contents of the req->token table"])

prop("K02", "A prefix lookup returns exactly the longest cached prefix and its KV slots",
     "Looking up a token sequence in the prefix cache returns the longest prefix of it (page-aligned when paging is on) that is currently cached under the same namespace, together with exactly the KV slots that were stored for those tokens, in order. "
     "Inserting a sequence reports how many leading tokens were already cached, keeps their existing slots and stores the new slots for the rest; sequences in other namespaces, sibling branches and earlier insertions keep their slots. "
     "Splitting, eviction of other entries and locking never change what a lookup returns for an entry that is still cached.",
     ["histories", "inputs"],
     "every sequence of inserts, lookups, locks and evictions over token sequences that share prefixes, every page size, with and without namespaces",
     "No existing test touches the Python prefix cache; the wrong slot is returned only after particular split/evict/insert orders.",
     [M + "radix_cache.py", M + "base_prefix_cache.py", M + "chunk_cache.py"],
     [("radix walk", M + "radix_cache.py:RadixCache._match_normal/_insert_normal"),
      ("node split", M + "radix_cache.py:RadixCache._split_node"),
      ("namespace + page child key", M + "radix_cache.py:_child_key/_key_match")],
     [("tree", "cached sequences and their KV slots", M + "radix_cache.py:TreeNode")],
     ["match_prefix().indices/prefix_len", "insert().prefix_len", "total_size()"])

prop("K03", "Eviction frees only unlocked entries, oldest first, and accounts exactly",
     "Evicting releases whole unlocked leaf entries in least-recently-used order until the requested number of tokens is reached or nothing unlocked is left, frees to the pool exactly the KV slots that left the cache, once each, and reports exactly that many. "
     "An entry stays cached, with all its ancestors, while any lock taken on it or below it has not been released. "
     "The evictable and protected sizes reported always equal the number of cached tokens without and with a lock, so eviction can always reclaim the whole evictable size.",
     ["histories"],
     "every sequence of inserts, lookups, lock/unlock pairs and evictions (nested locks, splits below and above locked entries)",
     "Needs multi-step histories (insert under a shared parent, lock, split, unlock, evict); no existing test calls evict or the lock functions.",
     [M + "radix_cache.py"],
     [("lock reference counts", M + "radix_cache.py:RadixCache.inc_lock_ref/dec_lock_ref"),
      ("LRU leaf eviction", M + "radix_cache.py:RadixCache.evict/_collect_evictable_leaves"),
      ("size accounting", M + "radix_cache.py:RadixCache._add_leaf/_delete_leaf/_split_node")],
     [("evictable/protected counters", "cached tokens by lock state", M + "radix_cache.py:RadixCache")],
     ["evict() result", "slots freed to the pool", "evictable_size()/protected_size()/total_size()"])

prop("K04", "The sliding-window prefix cache keeps slots, tombstones and locks consistent",
     "With a sliding window configured, a lookup returns only a cached prefix whose last window of tokens still has its window KV (or that has none missing back to the start), with exactly the slots stored for it. "
     "Dropping window KV from an entry that others continue keeps its full-attention slots cached; eviction takes the least recently used first and never what a lock covers, and every slot given to the cache is given back to the pool exactly once, including duplicates on re-insertion. "
     "The full and window evictable/protected sizes always equal the tokens in the corresponding state.",
     ["histories"],
     "every sequence of inserts (with any already-dropped window prefix), lookups, locks, full and window evictions",
     "No existing test constructs the sliding-window mode.",
     [M + "radix_cache.py"],
     [("SWA match", M + "radix_cache.py:RadixCache._match_swa"),
      ("SWA insert / un-tombstone", M + "radix_cache.py:RadixCache._insert_swa"),
      ("two-phase eviction", M + "radix_cache.py:RadixCache.evict")],
     [("tombstone flag", "window KV freed", M + "radix_cache.py:TreeNode.swa_tombstone")],
     ["match_prefix()", "evict()", "slots freed to the pool", "size queries"])

prop("K05", "The hybrid (state-space) prefix cache pairs every hit with a matching state snapshot",
     "A lookup in the hybrid prefix cache returns exactly the KV slots stored for the longest cached prefix; the entry it ends at carries a recurrent-state snapshot only if one was stored for exactly that prefix, and where the first snapshot on the path is missing is reported. "
     "Snapshots and KV slots can be evicted independently, least recently used first and never while locked; whatever leaves the cache is released exactly once, and an operation always terminates. "
     "The reported evictable and protected sizes for KV and for snapshots equal what is cached without and with a lock.",
     ["histories"],
     "every sequence of inserts with/without snapshots, lookups, locks, KV evictions and snapshot evictions",
     "No existing test constructs the hybrid cache.",
     [M + "mamba_radix_cache.py"],
     [("longest cached prefix and where snapshots are missing", M + "mamba_radix_cache.py:MambaRadixCache.match_prefix"),
      ("dual LRU lists", M + "mamba_radix_cache.py"),
      ("lock accounting", M + "mamba_radix_cache.py:inc_lock_ref/dec_lock_ref")],
     [("mamba_value", "state snapshot of a node", M + "mamba_radix_cache.py:MambaTreeNode")],
     ["match_prefix()", "evict()", "slots freed to pools", "size queries"])

# ---------------------------------------------------------------- runtime
prop("R01", "Reusing cached prefixes never changes what a request computes",
     "Every forward pass of a request sees, for each position of its context, the KV entry that was computed for exactly that request's own token sequence up to that position, whether computed by itself or reused from an earlier request, no matter which requests ran, finished, were aborted or were evicted before or run beside it. "
     "Consequently the tokens produced with prefix caching are the same as without it. "
     "Requests whose prompts carry different image content never share cached KV.",
     ["histories", "configurations", "inputs"],
     "every history of prompts with shared prefixes, batch compositions, decode lengths, aborts and evictions, with the radix cache on or off",
     "Existing tests run single forward passes with mocked pools; cross-request KV aliasing needs several requests with shared prefixes and eviction between them.",
     [O + "model_runner_process.py", M + "radix_cache.py", M + "memory_pool.py", "pymllm/executor/model_runner.py"],
     [("prefix match + lock + KV allocation", O + "model_runner_process.py:ModelRunnerProcess._allocate_extend"),
      ("insert on completion", O + "model_runner_process.py:ModelRunnerProcess._insert_into_radix_cache"),
      ("decode slot per step", O + "model_runner_process.py:ModelRunnerProcess._allocate_decode")],
     [("req->token table", "which KV slot holds each position", M + "memory_pool.py:ReqToTokenPool.req_to_token")],
     ["KV slots read and written by each forward pass", "tokens returned per request"])

prop("R02", "Finished, failed and aborted requests return every resource exactly once",
     "Once a request has finished, been aborted or failed to start, its request slot is free again and each KV slot it used is either held by the prefix cache or free, never both and never twice. "
     "At every moment free KV slots, slots owned by running requests and slots owned by the cache are disjoint and add up to the capacity; when no request is alive and the cache is emptied, everything is free. "
     "Releasing an unknown or already released request changes nothing.",
     ["histories", "fault_sequences"],
     "every history of admissions (fresh, partially and fully cached prompts, allocation failures), decodes, completions and aborts",
     "Leaks and double frees show up only as totals over many requests; no existing test runs the process that owns the pools.",
     [O + "model_runner_process.py"],
     [("release on finish/abort", O + "model_runner_process.py:ModelRunnerProcess._free_rid_resources"),
      ("rollback on failed admission", O + "model_runner_process.py:ModelRunnerProcess._allocate_extend"),
      ("eviction on pressure", O + "model_runner_process.py:ModelRunnerProcess._alloc_kv_with_eviction")],
     [("per-request bookkeeping", "slot, sequence length, cache lock", O + "model_runner_process.py")],
     ["available_size() of pools", "evictable/protected sizes", "req->token table"])

prop("R03", "Hybrid models resume only from the recurrent state of the reused prefix",
     "When a request of a hybrid (recurrent-state) model reuses a cached prefix, its recurrent state before the first newly computed token is exactly the state after that prefix; when no such snapshot exists nothing is reused and the state starts from zero. "
     "A request's state is never affected by other requests or by earlier users of the same slot. "
     "Snapshot slots are released when their cache entry is evicted and are never shared by two entries.",
     ["histories"],
     "every history of prompts with shared prefixes, completions and evictions on a model with recurrent layers",
     "No existing test drives recurrent-state snapshots.",
     [O + "model_runner_process.py", M + "memory_pool.py"],
     [("snapshot on insert, restore on hit", O + "model_runner_process.py:ModelRunnerProcess._allocate_extend/_insert_into_radix_cache"),
      ("state pool", M + "memory_pool.py:GDNPool")],
     [("node->snapshot map", "track slot of each cache node", O + "model_runner_process.py")],
     ["state contents seen by each forward pass", "free snapshot slots"])

# ---------------------------------------------------------------- scheduler
prop("S01", "Batches respect the admission limits and arrival order",
     "No more requests run at the same time than the configured maximum, and no prefill batch exceeds the configured prefill token budget or the free KV token budget. "
     "Waiting requests are considered in arrival order and each is admitted as soon as it fits; prefill of admitted requests takes precedence over decoding, and every running request takes part in every decode step. "
     "The token budget is charged when a request is admitted or decodes and given back in full when it ends, so it never drifts.",
     ["histories", "configurations"],
     "every arrival sequence of prompt lengths, budgets, running limits, completions and aborts",
     "No existing test constructs the scheduler.",
     [O + "scheduler_process.py"],
     [("admission", O + "scheduler_process.py:SchedulerProcess.get_next_batch_to_run"),
      ("token accounting", O + "scheduler_process.py:SchedulerProcess.process_batch_result")],
     [("used tokens / waiting / running", "scheduler load", O + "scheduler_process.py:SchedulerProcess")],
     ["batches handed to the model runner"])

prop("S02", "Every request gets its own tokens, in order, and exactly one final result",
     "For every request the delivered stream is exactly the sequence of tokens the model produced for that request with its own sampling parameters, in order, without loss, duplication or mixing between requests; streaming and non-streaming give the same tokens. "
     "Exactly one final result is delivered, nothing follows it, and it is delivered at the first of: an end-of-sequence or stop token of that request, the request's maximum number of new tokens, or the context limit, with the matching finish reason and correct prompt/completion counts.",
     ["histories", "inputs"],
     "every interleaving of arrivals, batch compositions, model outputs and stop settings",
     "No existing test runs the scheduler loop with more than zero requests.",
     [O + "scheduler_process.py", "pymllm/engine/io_struct.py"],
     [("finish check", O + "scheduler_process.py:Req.check_finished"),
      ("result collection", O + "scheduler_process.py:SchedulerProcess.process_batch_result/stream_output")],
     [("output_ids / finished_reason", "per-request output", O + "scheduler_process.py:Req")],
     ["messages sent to the detokenizer"])

prop("S03", "An abort stops exactly the named request and nothing else",
     "Once the runtime has received an abort, the request it names, wherever it is (waiting, pending, running, in either transport mode), takes part in no later batch, no result is sent for it any more and its resources are returned. "
     "Other requests are unaffected: they are admitted, computed and answered as if the aborted request had ended there. Aborting an unknown or finished request changes nothing.",
     ["histories", "schedules"],
     "every position of the abort relative to arrival, tokenisation, admission, decode and completion of the request",
     "No existing test aborts a request.",
     [O + "scheduler_process.py", O + "request_response_process.py", O + "model_runner_process.py"],
     [("abort handling", O + "scheduler_process.py:SchedulerProcess._abort_request"),
      ("abort at the front end", O + "request_response_process.py:RequestResponseProcess.abort_request")],
     [("waiting/running/pending sets", "where a request is", O + "scheduler_process.py")],
     ["final messages", "later batches"])

prop("S04", "Every accepted request is eventually answered",
     "As long as the model keeps producing tokens, every request accepted by the runtime is eventually admitted, or answered with an error when it can never fit the configured limits; no arrival order, prompt length, abort or memory pressure leaves it waiting forever or stops the serving loop. "
     "When memory runs out while decoding, only the most recent requests are ended, each with one final result, until the others can go on.",
     ["histories", "configurations"],
     "every arrival history and every prompt length relative to the configured limits",
     "A liveness property: no finite test sample settles it and no existing test runs the loop.",
     [O + "scheduler_process.py", O + "model_runner_process.py"],
     [("admission loop", O + "scheduler_process.py:SchedulerProcess.get_next_batch_to_run"),
      ("event loop", O + "scheduler_process.py:SchedulerProcess.event_loop")],
     [("waiting queue", "requests not admitted yet", O + "scheduler_process.py")],
     ["final messages"])

prop("S05", "Sampling draws from the request's own filtered distribution",
     "The next token of a request is drawn from the distribution given by its own logits, its own history (repetition, frequency and presence penalties) and its own temperature, restricted to its own top-k and top-p sets; temperature zero always gives the most likely token. "
     "Non-positive top-k means no restriction. The parameters, histories and greediness of the other requests in the batch have no influence.",
     ["inputs", "configurations"],
     "every combination of parameters of the requests batched together, every logits vector and history",
     "Existing tests sample with at most one filter and one kind of request; mixing of parameters between rows and boundary values (top-k 0, -1, above the vocabulary) are not tried.",
     ["pymllm/layers/sampling.py", "pymllm/executor/model_runner.py", O + "model_runner_process.py"],
     [("top-k/top-p renormalisation", "pymllm/layers/sampling.py"),
      ("penalties, greedy path", "pymllm/executor/model_runner.py:ModelRunner.sample/_apply_penalties"),
      ("parameter collection", O + "model_runner_process.py")],
     [("sampling parameters", "per-request settings", "pymllm/engine/io_struct.py")],
     ["tokens returned for each request"])

# ---------------------------------------------------------------- front end
prop("Q01", "Results are routed to the request that asked for them",
     "Each request submitted to the front end (alone or as an element of a batch, blocking or asynchronous, streamed or not) is passed on with its own inputs and settings and receives exactly the results carrying its id, in order, ending with its final result. "
     "Concurrent submissions, completions, cancellations and aborts in any order never deliver a result to another caller, drop one or leave a caller waiting after its final result; a caller that goes away has its unfinished requests aborted, and the abort never overtakes its request. "
     "Using the id of a live request is rejected, results for ids nobody waits for are discarded, and no per-request state remains when a call is over.",
     ["schedules", "histories"],
     "every interleaving of submissions, results, final results, cancellations and aborts",
     "No existing test runs the front-end process.",
     [O + "request_response_process.py", "pymllm/engine/io_struct.py", "pymllm/engine/launch.py"],
     [("per-request state table", O + "request_response_process.py:RequestResponseProcess"),
      ("batch splitting", "pymllm/engine/io_struct.py:GenerateReqInput")],
     [("rid -> state", "waiting callers", O + "request_response_process.py")],
     ["values received by each caller"])

prop("Q02", "Streamed text adds up to the decoding of the generated tokens",
     "For every request the concatenation of the streamed text pieces equals the text of the final result, which equals decoding all of the request's generated tokens, even when characters span several tokens. "
     "What has been streamed is always a prefix of the final text, and pieces of different requests, or of successive requests using the same id, never mix. "
     "Token ids, counts, timings and finish information are passed through unchanged and no per-request state is left after the final result.",
     ["inputs", "schedules"],
     "every token sequence (multi-byte characters split over tokens, empty steps) and every interleaving of requests",
     "No existing test runs the detokenizer.",
     [O + "detokenizer_process.py"],
     [("incremental decode", O + "detokenizer_process.py:DetokenizerProcess._detokenize")],
     [("previous text per request", "what has been streamed", O + "detokenizer_process.py")],
     ["messages sent to the front end"])

prop("Q03", "Streaming reasoning separation equals parsing the whole text at once",
     "However the model output is cut into streamed pieces, the concatenated reasoning pieces and the concatenated content pieces equal the reasoning and content obtained by parsing the whole output at once. "
     "Every character of the output other than the reasoning markers appears exactly once, in order, in one of the two, also when the output ends inside a partial marker.",
     ["inputs", "schedules"],
     "every output text and every way of cutting it into pieces",
     "No existing test runs the parser; a marker split over pieces needs particular cuts.",
     ["pymllm/parsers/reasoning_parser.py"],
     [("partial marker hold-back", "pymllm/parsers/reasoning_parser.py:ReasoningParser.parse_stream_chunk")],
     [("buffer / in_reasoning", "held back text and mode", "pymllm/parsers/reasoning_parser.py")],
     ["return values of the parser"])

prop("Q04", "Streaming tool-call extraction equals parsing the whole text at once",
     "For output whose tool calls are well formed, however it is cut into streamed pieces, the content and the tool calls (order, names, arguments) assembled from the streamed deltas equal those obtained by parsing the whole output at once. "
     "Text outside the calls is delivered exactly once and in order, the markers themselves are never delivered, and calls are numbered consecutively from zero.",
     ["inputs", "schedules"],
     "every output text containing any number of calls in the supported formats and every way of cutting it into pieces",
     "No existing test runs the parser; errors need markers split over pieces.",
     ["pymllm/parsers/tool_call_parser.py"],
     [("streaming detector", "pymllm/parsers/tool_call_parser.py")],
     [("buffer / current call", "held back text and call in progress", "pymllm/parsers/tool_call_parser.py")],
     ["return values of the parser"])

prop("Q05", "Shared-memory hand-over delivers every request's data once and intact",
     "Data handed from the tokenizer to the scheduler through shared memory arrives intact, under the id it was sent for, exactly once and in the order its sender sent it; a full queue makes the sender wait and loses nothing. "
     "A segment is removed once its data was read or discarded, so no segment outlives its request, and reading a missing segment is an error that affects only that request.",
     ["histories", "inputs", "schedules"],
     "every interleaving of producers and consumers and every payload (empty, large, tensors of any shape)",
     "No existing test touches the transport.",
     [O + "shared_memory_queue.py", O + "tokenizer_process.py", O + "scheduler_process.py"],
     [("segment write/read/unlink", O + "shared_memory_queue.py:SharedMemoryManager"),
      ("queue", O + "shared_memory_queue.py:TensorQueue")],
     [("/dev/shm segments", "payloads in flight", O + "shared_memory_queue.py")],
     ["values read", "segments present"])

prop("Q06", "The pooled tensor transport never overwrites data a reader still needs",
     "A chunk of the shared tensor pool handed to a tensor is not handed to another tensor until its reader has signalled completion; live chunks never overlap and lie inside the pool. "
     "Released chunks become available again and neighbouring free chunks merge, so when every reader is done the whole pool is one free chunk. "
     "When nothing fits, the sender is told so and nothing is overwritten.",
     ["histories", "schedules"],
     "every sequence of tensor sizes and every order in which readers finish",
     "No existing test touches the pool; reuse too early needs a particular order of releases.",
     [O + "cuda_ipc_transport.py"],
     [("chunk allocation / recycle / merge", O + "cuda_ipc_transport.py:MmItemMemoryPool")],
     [("available/occupied chunks", "partition of the pool", O + "cuda_ipc_transport.py:MmItemMemoryPool")],
     ["chunk ranges handed out", "sync flags"])

prop("Q07", "HTTP answers carry the engine's results for their own prompts",
     "Every prompt of an HTTP call (native, completion or chat; one or several prompts; streamed or not) is passed on with the settings the client gave, and the answer, in the client's order of prompts, carries exactly the text, finish reason and token counts the engine produced for it, streamed pieces adding up to it before the end mark. "
     "Reasoning and tool calls are separated the same way whether or not the answer is streamed. "
     "A client that goes away has its unfinished requests aborted without waiting for further results; calls that are refused (bad key, unsupported option, overload, id in use) are told so and nothing of them is run.",
     ["schedules", "inputs", "histories"],
     "every interleaving of calls, results, disconnections, aborts and stalls, over every combination of call kind, batch size and options",
     "The existing server test checks the timing fields of a finished answer; disconnection, batches and completion order need concurrent schedules.",
     ["pymllm/server/launch.py", "pymllm/engine/launch.py"],
     [("disconnect watch", "pymllm/server/launch.py:_iter_with_disconnect_check"),
      ("handlers", "pymllm/server/launch.py:generate/openai_completions/openai_chat_completions"),
      ("queue limit", O + "request_response_process.py:RequestResponseProcess.add_request")],
     [("choices[].index", "which prompt a text answers", "pymllm/server/launch.py")],
     ["HTTP responses", "messages sent to the tokenizer"])

# ---------------------------------------------------------------- C++ engine
prop("C01", "The C++ memory pool never hands out overlapping or misaligned memory",
     "Blocks handed out by the on-device memory pool and not yet returned never overlap, are large enough and correctly aligned; their contents are not touched by other allocations, frees, growth or clean-up. "
     "Returned memory is reused and merged so that returning everything makes the whole capacity available again in one piece. "
     "This holds for any sequence of requests, also from several threads.",
     ["histories", "schedules"],
     "every sequence and interleaving of allocations, frees and pool growth of every size",
     "No C++ test that builds here allocates from the pool.",
     [E + "BuddyMemPool.cpp", E + "MemoryManager.cpp"],
     [("buddy split/merge", E + "BuddyMemPool.cpp"), ("object cache and large-allocation routing", E + "MemoryManager.cpp")],
     [("free lists", "free blocks per order", E + "BuddyMemPool.hpp")],
     ["addresses returned", "contents of live blocks"])

prop("C02", "The thread pool runs every index of a parallel loop exactly once before returning",
     "A parallel loop over a range with a step runs its body exactly once for every index start, start+step, ... below end, for any number of worker threads, range and step, and the call returns only after all bodies have finished. "
     "Successive loops, waking up, putting to sleep and destroying the pool in any order never lose or repeat an index, deadlock or crash.",
     ["schedules", "inputs", "histories"],
     "every thread count, range, step and interleaving of workers with the caller, wake-ups and shutdown",
     "No test that builds here runs the pool, and a test samples only a few schedules.",
     [E + "HpcThreadPool.cpp", E + "HpcThreadPool.hpp"],
     [("tile distribution", E + "HpcThreadPool.cpp:push"), ("activate/idle/destroy", E + "HpcThreadPool.cpp")],
     [("task slots and status flags", "work handed to workers", E + "HpcThreadPool.hpp")],
     ["indices executed", "termination"])

prop("C03", "The C++ radix tree returns exactly the addresses stored for the longest prefix",
     "Searching a token sequence returns the length of its longest prefix stored under the same namespace key and exactly the addresses stored for those tokens in order; an insertion makes the full sequence findable with the given addresses without disturbing any other stored sequence. "
     "Namespaces with different keys are fully isolated, and clearing forgets everything.",
     ["histories", "inputs"],
     "every sequence of insertions, searches and clears over sequences sharing prefixes",
     "The one existing test inserts a handful of sequences.",
     [E + "prefix_cache/RadixTree.cpp", E + "prefix_cache/RadixTree.hpp"],
     [("search/insert/split", E + "prefix_cache/RadixTree.cpp")],
     [("nodes", "stored segments", E + "prefix_cache/RadixTree.hpp")],
     ["search() results", "insert() results"])

prop("C04", "The prefix-cache block allocator never gives one block to two owners",
     "An address handed out by the prefix-cache allocator is unique among live addresses and lies inside the backing blob; memory behind different live addresses does not overlap and keeps its contents until freed. "
     "Freeing an address makes exactly that block available again, purging or prefetching keeps its contents, and memory grows only when every block is in use.",
     ["histories", "configurations"],
     "every sequence of allocations, frees, purges and writes, every page/lane geometry, memory- and file-backed",
     "No test that builds here uses the allocator.",
     [E + "prefix_cache/ZenFS.cpp", E + "prefix_cache/Allocator.cpp"],
     [("lane bitmap", E + "prefix_cache/ZenFS.cpp"), ("address encoding", E + "prefix_cache/ZenFS.hpp")],
     [("bitmaps", "used blocks", E + "prefix_cache/ZenFS.hpp")],
     ["addresses returned", "contents behind addresses"])

prop("C05", "The C++ multi-layer prefix cache finds what was promoted for every layer",
     "After a token sequence was promoted with its per-layer key and value addresses, finding any extension of it yields for each layer exactly those addresses for the matched length; unrelated sequences are unaffected. "
     "Dropping a layer's entries outside its sliding window frees exactly those blocks and never those of other layers or inside the window.",
     ["histories"],
     "every sequence of promotions, finds and window evictions over sequences sharing prefixes",
     "No test that builds here uses the cache.",
     [E + "prefix_cache/Cache.cpp", E + "prefix_cache/TLB.cpp", "mllm/nn/lmcache/PrefixCache.cpp"],
     [("find/promote/evict", E + "prefix_cache/Cache.cpp"), ("address translation", E + "prefix_cache/TLB.cpp")],
     [("radix tree + per-layer addresses", "cached blocks", E + "prefix_cache/Cache.hpp")],
     ["find() results", "blocks free in the allocator"])

prop("C06", "The C++ request service answers every request once, in order, to the right caller",
     "Every response produced for a request reaches the caller waiting on that request's id, in order and exactly once; a caller waiting on an id is woken by its own response whatever other callers wait for. "
     "Failing, unknown-model and malformed requests are answered with an error instead of stopping the service, and shutting down wakes every waiting caller.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of pushes, pops on several ids, worker threads, failures and shutdown",
     "No test that builds here runs the service; lost wake-ups need particular schedules.",
     [E + "service/Service.cpp", E + "service/Service.hpp"],
     [("response pool", E + "service/Service.cpp:ResponsePool"), ("worker loop", E + "service/Service.cpp")],
     [("queues per id", "undelivered responses", E + "service/Service.hpp")],
     ["responses popped", "termination of waiters"])

prop("C07", "Symbolic shape expressions evaluate to their arithmetic meaning",
     "Parsing an arithmetic expression over integers and named dimensions and evaluating it with any assignment gives the value defined by the usual precedence, left associativity and parentheses, with the documented integer operators. "
     "Printing or simplifying an expression does not change its value, and malformed input is reported as an error rather than mis-parsed, crashing or looping.",
     ["inputs", "programs"],
     "every expression over the supported operators, any nesting and any assignment",
     "The existing test evaluates a handful of fixed expressions, most without two operators of equal precedence and none malformed.",
     ["mllm/compile/symbolic_expr"],
     [("precedence climbing parser", "mllm/compile/symbolic_expr/Parser"), ("evaluator", "mllm/compile/symbolic_expr")],
     [], ["evaluation results", "errors"])

prop("C08", "Model files read back exactly the tensors that were written",
     "Every tensor written to a model file (either format version, by the C++ or the Python writer, in one go or streamed) is read back by the C++ reader under the same name with the same type, shape (version 1 keeps only the element count) and bytes, memory-mapped or not, wherever the file's table says its data lies, and nothing else appears; what a version cannot hold is refused when written. "
     "Tensors never overlap in the file, and a file that is truncated or not of the expected format, or more tensors than the header has room for, is rejected instead of silently giving wrong data.",
     ["inputs", "crash_points"],
     "every set of names, types, shapes and sizes, every order of writing, every truncation point",
     "No existing test writes or reads a model file.",
     ["mllm/core/ParameterFile.cpp", "mllm/core/ParameterFile.hpp", "pymllm/mobile/convertor/model_file_v2.py"],
     [("writer/reader", "mllm/core/ParameterFile.cpp"), ("python writer", "pymllm/mobile/convertor/model_file_v2.py")],
     [("descriptor table", "name, offset, size per tensor", "mllm/core/ParameterFile.hpp")],
     ["names, dtypes, shapes, bytes read"])

prop("C09", "Byte-pair tokenisation applies merges by rank and loses no text",
     "The tokens produced for a word are those obtained by repeatedly merging the adjacent pair with the lowest merge rank (leftmost first) until none applies, and mapping tokens back to text restores the input bytes exactly. "
     "Special tokens are matched from the left, the longest first where several start, and split the text without losing or duplicating any part of it.",
     ["inputs", "configurations"],
     "every merge table, vocabulary, set of special tokens and input text",
     "No test that builds here runs the tokenizer.",
     ["mllm/preprocessor/tokenizers/BPE.cpp", "mllm/preprocessor/tokenizers/AutoTokenizer.cpp", "mllm/preprocessor/tokenizers/BPEUTF8.cpp"],
     [("merge loop", "mllm/preprocessor/tokenizers/BPE.cpp"), ("special-token trie", "mllm/preprocessor/tokenizers/AutoTokenizer.cpp")],
     [], ["token lists", "decoded text"])

prop("C10", "Text is cut into words exactly as each tokenizer's pattern says",
     "Before merging, every byte-level tokenizer (the Qwen family, MiniCPM-o, SmolLM3, DeepSeek-OCR) cuts the text into the words its stated pattern gives when matched from the left, with the first alternative that matches and the usual backtracking: shortened words in either case where the pattern says so, digits, marks, blanks before words, runs of blanks and line ends, for letters, digits and spaces of every script. "
     "The words put together are the text, and texts of any length, with words of any length, are cut.",
     ["inputs"],
     "every text: every sequence of letters, digits, marks, blanks and line ends",
     "No test that builds here cuts text.",
     ["mllm/models/qwen3/tokenization_qwen3.hpp", "mllm/models/smollm3_3B/tokenization_smollm3.hpp", "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp"],
     [("pattern matcher of the Qwen family", "mllm/models/qwen3/tokenization_qwen3.hpp"), ("pattern splitter", "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp")],
     [], ["token lists"])

prop("C11", "The models' key/value cache returns what was appended and writes nowhere else",
     "What a C++ model reads from its static key/value cache for a layer is exactly the key and value rows appended to that layer since the cache was last cleared or cut back, in their order, each head's rows repeated for the query heads that share it, whatever happens in other layers. "
     "A cache opened on part of another one starts with the rows that are there and adds only behind them. "
     "Rows that do not fit are refused with an exception that leaves everything as it was; nothing is written outside the cache.",
     ["histories", "inputs"],
     "every history of appending, writing in place, cutting back, clearing and opening sub-caches, every geometry and pair of data types",
     "The test that builds elsewhere appends twice and prints; here none runs.",
     ["mllm/nn/lmcache/StaticCache.cpp", "mllm/nn/lmcache/StaticCache.hpp", "mllm/core/TensorViewImpl.cpp"],
     [("append", "mllm/nn/lmcache/StaticCache.cpp"), ("sub-cache", "mllm/nn/lmcache/StaticCache.hpp")],
     [], ["row contents"])

prop("C12", "Tensor operations put every element where their definition says",
     "Slicing, splitting, viewing, copying, joining, stacking, gathering, indexing, repeating, padding, resizing, turning (rotary embedding), transposing, masking, scattering, sorting and selecting on the CPU give, for every shape, dimension, data type and chain of operations, a tensor of the defined shape with the defined element at every place, independent of what memory held before. "
     "Views stay windows on the tensor they were taken from, also where they have gaps; every other operation leaves its inputs, and all tensors it does not write to by definition, as they were.",
     ["inputs", "histories"],
     "every shape, view, dimension (also counted from the end), data type and chain of operations",
     "The operators' own tests need libraries that are not here; they sample shapes and mostly plain tensors.",
     ["mllm/backends/cpu/ops/ConcatOp.cpp", "mllm/backends/cpu/ops/ContiguousOp.cpp", "mllm/backends/cpu/ops/CausalMaskOp.cpp", "mllm/backends/cpu/ops/PadOp.cpp", "mllm/backends/cpu/ops/TopKOp.cpp",
      "mllm/backends/cpu/kernels/x86/transpose.cpp", "mllm/core/aops/SliceOp.cpp", "mllm/core/aops/IndexOp.cpp", "mllm/core/TensorViewImpl.cpp"],
     [("operations", "mllm/backends/cpu/ops/GatherOp.cpp"), ("views", "mllm/core/aops/SliceOp.cpp")],
     [], ["stride arithmetic"])

claim("K01", "TLA+ specs SlotPool/SlotTrace: TLC transition graph replayed on the real pools, recorded slots trace-validated by TLC",
      "Every transition of the bounded allocator model is executed on the real pools (plus long simulated behaviours); the slots actually handed out are checked against the ownership spec. CPU tensors only.")
claim("K02", "TLA+ spec RadixCache: every transition of the TLC graph and long simulated behaviours replayed on the real prefix cache",
      "Exhaustive over the bounded key sets and histories of the model, sampled beyond. Inserted keys are page aligned, as the interface asks.")
claim("K03", "TLA+ spec RadixCache: every transition of the TLC graph and long simulated behaviours replayed on the real prefix cache",
      "Exhaustive over the bounded key sets, locks and eviction requests of the model, sampled beyond. LRU order is by operation.")

SERVE = "TLA+ spec Serve (scheduler + KV memory + prefix cache): TLC transition graph and simulated histories replayed on the real tokenizer/scheduler/model-runner processes"
claim("K04", "TLA+ specs SwaCache/SwaTrace: TLC graph coverage and long random histories run on the real cache, every recorded run validated by TLC against the spec",
      "Exhaustive over bounded trees, sampled beyond. Entries of equal age may be evicted in any order (the spec allows all outcomes).")
claim("K05", "TLA+ spec MambaCache: every transition of the TLC graph and long simulated behaviours replayed on the real hybrid cache",
      "Exhaustive over bounded trees, sampled beyond. One snapshot slot per entry.")
claim("R01", SERVE, "Exhaustive over bounded configurations, sampled beyond. The neural network is a stand-in that records for every KV slot which token sequence it was computed for. CPU tensors; CUDA graphs not covered.")
claim("R02", SERVE, "Exhaustive over bounded configurations, sampled beyond; every run is drained and the pools must be whole again. CPU tensors.")
claim("R03", SERVE, "Exhaustive over a bounded hybrid configuration, sampled beyond. Recurrent state contents are tagged by a stand-in network; CUDA graphs not covered.")
claim("S01", SERVE, "Exhaustive over bounded configurations, sampled beyond: batches and token budget of every iteration are compared.")
claim("S02", SERVE, "Exhaustive over bounded configurations, sampled beyond: every message of every iteration is compared. Stop strings are not part of the scheduler.")
claim("S03", SERVE + ", in both transport modes", "Abort at every reachable point of the bounded models (all transitions), sampled beyond.")
claim("S04", SERVE + "; liveness under weak fairness checked by TLC", "TLC proves 'served' on the bounded model under fairness; on the code each replayed history is drained within a bound.")
claim("S05", "TLA+ spec Sampling: TLC's graph of supports and weights is the oracle for tokens drawn by the real runtime", "Support inclusion is exact; probabilities are compared statistically (6.5 sigma, fixed seeds). PyTorch path only (FlashInfer needs a GPU).")

claim("Q03", "TLA+ spec Reasoning (streaming parser with an arbitrary cut of the text): TLC graph and simulated cuts replayed on the real parser",
      "Exhaustive over the outputs and cuts of the bounded model, sampled beyond; both detectors, forced reasoning on and off.")
claim("Q04", "TLA+ spec ToolCalls: TLC graph and simulated cuts replayed on the real streaming and whole-text parsers",
      "Exhaustive over cuts of the listed outputs, sampled over longer generated ones; every supported call format, well-formed calls only.")
claim("Q05", "TLA+ specs ShmTransport (replayed on the real tokenizer/scheduler hand-over) and ShmOrder (validates runs recorded from concurrent processes)",
      "Exhaustive over bounded histories with vanished segments and full queues; several sender processes sampled. CPU tensors.")
claim("Q06", "TLA+ specs ShmPool (transition graph replayed on the real pool) and ShmPoolTrace (chunks handed out are validated)",
      "Exhaustive over bounded sizes and release orders, sampled beyond. CUDA calls are replaced by CPU stand-ins; asynchronous copies are not modelled.")
claim("Q01", "TLA+ specs Frontend and Generate (transition graphs replayed on the real engine front end) and FrontTrace (runs under random schedules are validated by TLC)",
      "Exhaustive over bounded calls, ids and results; random event-loop schedules beyond. Assumes an id is not used again while results of its aborted predecessor are on their way.")
claim("Q02", "TLA+ spec Detok (UTF-8 decoding and interleaved requests): TLC graph and simulated histories replayed on the real detokenizer",
      "Exhaustive over token sequences of the bounded vocabularies, sampled beyond; byte-level and byte-fallback tokenizers of the real library. Tokenizers that clean up spaces are outside.")

claim("Q07", "TLA+ spec Http: TLC graph and simulated histories replayed on the real FastAPI application over the real engine front end",
      "Exhaustive over bounded calls and results, sampled beyond. Driven through ASGI without sockets or model; the chat template is a stand-in.")

claim("C03", "TLA+ spec PrefixStore: every transition of the TLC graph and long simulated histories replayed on the real radix tree (ASan/UBSan build)",
      "Exhaustive over bounded sets of sequences, sampled beyond. Every position of every layer carries an address of its own.")
claim("C04", "TLA+ spec BlockStore: every transition of the TLC graph and long simulated histories replayed on the real allocator through all four interfaces (ASan/UBSan build)",
      "Exhaustive for small blobs, sampled for up to 256 blocks per blob; anonymous and file-backed. Recording to and recovering from disk is unfinished in the code and not covered.")
claim("C05", "TLA+ spec LayerCache: every transition of the TLC graph and long simulated histories replayed on the real multi-layer cache (ASan/UBSan build)",
      "Exhaustive over bounded sets of sequences, sampled beyond; blocks carry tags of their position, layer and kind.")
claim("C01", "TLA+ specs Buddy/BuddyTrace: TLC graph coverage and long histories run on the real memory manager and pool (ASan/UBSan), plus seeded schedules of several threads under a deterministic scheduler; every run validated by TLC",
      "Exhaustive over bounded request histories (any placement), sampled beyond and for thread schedules. The system allocator is a stand-in that records segments; first segment a power of two.")
claim("C02", "TLA+ specs HpcPool (algorithm, refines Loops under fairness) and LoopTrace: seeded schedules of the real pool under a deterministic scheduler, every run validated by TLC",
      "Termination and exactly-once proved for bounded models of the algorithm; the code is run on thousands of schedules, every range/step/thread count in bounds. Callers use task slots of their own.")
claim("C06", "TLA+ specs Service (algorithm, refines Answers under fairness) and AnswerTrace: seeded schedules of the real service under a deterministic scheduler, every run validated by TLC",
      "Delivery, order and termination proved for bounded models of the algorithm; the code is run on many schedules with failing sessions, malformed requests, shutdowns and restarts. Requests not begun at shutdown wait for the next start.")
claim("C07", "TLA+ specs SymText and SymOps (grammar and meaning over exact rationals): all short token sequences and TLC-simulated long ones replayed on the real parser and evaluator",
      "Exhaustive up to 4-7 tokens per alphabet, sampled to 28. Values are compared exactly where fp32 is exact, within rounding elsewhere; division by zero and overflow are only required not to crash.")
claim("C08", "TLA+ specs ModelFile (what each reader must find or refuse) and FileLayout: TLC transition graph and simulated histories replayed on the real writers and readers, file layouts validated by TLC",
      "Every prefix of written files and every state a dying Python writer leaves behind is read back; damage is a fixed list of field changes. Contiguous whole tensors only; the C++ Tensor class is a stand-in (it does not build here).")
claim("C09", "TLA+ spec Tokens: every short text over bounded alphabets, for hand-made and random merge tables and special tokens, and long simulated texts replayed on the real tokenizers",
      "Exhaustive to 6-8 characters per table, written in 1- to 4-byte characters; the three byte-level tokenizers of models that build here (Qwen3, Qwen3-MoE, SmolLM3) end to end. Valid UTF-8 and complete vocabularies.")
claim("C10", "TLA+ spec Pattern (ordered alternatives with backtracking): every short text over classes of characters and long simulated ones, cut by the real tokenizers with vocabularies that show where words end",
      "Exhaustive to 4-6 characters per alphabet, 10 renderings of each class; long texts sampled. Assigned code points; tokenizers with images or sound are built with stand-ins for those.")
claim("C11", "TLA+ spec KvCache: every transition of small caches and long simulated histories replayed on the real cache, rows named by their bytes, under AddressSanitizer",
      "Every row of every head, key and value, is read back after each step. Tensors and their slices come from a stand-in (the real ones do not build here); copies to other devices are done by it.")
claim("C12", "TLA+ spec Tensors: every operation on every cut of a small tensor and long simulated chains of operations replayed on the real operators, all elements of all live tensors compared, under AddressSanitizer",
      "Elements are read back through the real strides. Inputs of some operators are kept without gaps. Tensor and memory are stand-ins; arithmetic operators do not build here and are not covered.")
