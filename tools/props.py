#!/usr/bin/env python3
"""Writes properties.jsonl (one source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOOK = "cfg(verif_hooks): the index tables start empty instead of reserving about 13 GB of address space, so that thousands of instances can be started"

p("C01", "The bulk-built index equals a replay of the best chain",
  "When the indexer starts without a saved index, the unspent outputs it serves for every address at the deepest confirmation level are exactly those obtained by replaying, in order, the blocks of the best chain in the node's block files up to that depth. Every output paying a P2PKH or P2SH script that is not spent in that range appears once with its transaction id, index and value; spent outputs, outputs of other script kinds and outputs of other blocks never appear.",
  ["inputs", "configurations"],
  "every valid block chain longer than the confirmation depth (any mix of script kinds, spends within and across blocks, segwit or legacy encoding, any transaction and output counts) and every CONFIRMATIONS/THREADS/BATCH_SIZE",
  "The existing tests only touch text codecs; nothing builds an index at all, and the property quantifies over all chains.",
  ["src/main.rs", "src/store/store.rs", "src/store/transaction_store.rs", "src/store/transaction_store_backend.rs", "src/block_file_reader.rs", "src/block.rs"],
  [("block scan, chain selection, truncation to the confirmation depth", "src/main.rs main, src/block_file_reader.rs"), ("spend inputs then add outputs", "src/store/transaction_store.rs add_transaction")],
  ["HTTP balance/utxos answers of the running program"], HOOK)

p("C02", "The index does not depend on threads, batches or file layout",
  "For one and the same set of blocks, every choice of thread count and batch size, and every way of distributing the block records over block files and ordering them inside the files, yields an index that answers every query identically. In particular outputs created in one batch and spent in another are handled exactly as in a single sequential pass.",
  ["configurations", "schedules", "inputs"],
  "every chain, every pair of (THREADS, BATCH_SIZE, file layout) configurations, every worker scheduling",
  "No test runs the threaded builder; equality over all configuration pairs and worker schedules is not something sampled examples settle.",
  ["src/store/store.rs", "src/batcher.rs", "src/thread_pool.rs", "src/sequential_thread_pool.rs", "src/block_file_reader.rs", "src/store/transaction_store_backend.rs"],
  [("batching and in-order merge of per-batch results", "src/store/store.rs from_blocks / merge"), ("ordered worker pool", "src/sequential_thread_pool.rs")],
  ["HTTP answers of two or more differently configured instances"], HOOK)

p("C03", "Chain selection takes the longest chain and ignores everything else",
  "From any set of block files, the bulk build follows exactly the longest chain that connects to the genesis block, at its correct heights, whatever order the records are stored in. Stale forks, orphans without a known parent, records stored more than once, zero padding after the last record and files that are not block files have no influence on the result and never stop the build.",
  ["inputs"],
  "every block tree with a unique longest chain plus orphans, duplicated records (any number), padding lengths and foreign files, in every record order",
  "No test reads a block file; the input space is block trees and byte layouts.",
  ["src/block_file_reader.rs", "src/main.rs"],
  [("record scan with zero-padding stop", "src/block_file_reader.rs scan_block_file"), ("longest chain search", "src/block_file_reader.rs find_longest_chain")],
  ["HTTP answers, process exit status"], HOOK)

p("C04", "Each confirmation level reflects the chain at exactly that depth",
  "After the indexer has polled the node, an answer at confirmation level n (1 to the configured maximum) is computed from exactly the blocks of the node's current chain that have at least n confirmations: an output counts as soon as its creating block has n confirmations and stops counting as soon as its spending block has n confirmations. This stays true however many blocks arrive between two polls and however long the indexer runs.",
  ["histories", "configurations"],
  "every history of block arrivals (any number per poll), every maximum confirmation setting and every level from 1 to it",
  "No test drives the update loop; the property is over unbounded histories and all levels.",
  ["src/state.rs", "src/last_blocks.rs", "src/store/transaction_store_backend.rs"],
  [("per-level overlays over the final index", "src/last_blocks.rs augmentations"), ("level to overlay selection", "src/state.rs augmented_store"), ("moving final blocks into the base index", "src/state.rs apply_update, src/last_blocks.rs pop")],
  ["HTTP answers at every level"], HOOK,
  [("tail blocks", "blocks not yet final", "src/last_blocks.rs LastBlocks.blocks")])

p("C05", "Reorganisations shallower than the confirmation depth leave no trace",
  "When the node switches to a longer branch that replaces fewer blocks than the configured number of confirmations, then after the next poll every level answers exactly as if the replaced blocks had never been seen: outputs they created are gone unless the new branch contains them, outputs they spent are unspent again unless the new branch spends them. This holds for any sequence of such reorganisations, including repeated ones and ones that bring back an earlier branch.",
  ["histories"],
  "every history mixing block arrivals, reorganisations of depth 1 to CONFIRMATIONS-1 onto strictly longer branches, and restarts",
  "No test performs a reorganisation; only generated histories reach fork/return/nested cases.",
  ["src/last_blocks.rs", "src/state.rs"],
  [("pop mismatching tail blocks until the branch connects", "src/last_blocks.rs BlockUpdater::add_block")],
  ["HTTP answers at every level", "process stays up"], HOOK)

p("C06", "The zero-confirmation view is the chain plus the applicable mempool",
  "At confirmation level 0 the answer equals the state of the node's current chain with the node's current unconfirmed transactions applied in the order the node lists them, skipping each one that the node never returned when asked for it and each one spending an output that is not available. Evicted, replaced or mined transactions stop having any unconfirmed effect after the next poll, and no output is ever counted both as confirmed and as unconfirmed.",
  ["histories"],
  "every history of mempool additions (chains of dependent transactions included), evictions, replacements, transactions that vanish between listing and fetching, mining of mempool transactions and conflicts, interleaved with blocks and reorganisations",
  "No test has a mempool; the interplay with mined and conflicting transactions needs histories.",
  ["src/last_blocks.rs", "src/store/transaction_store.rs", "src/state.rs"],
  [("mempool mirror", "src/last_blocks.rs update_mempool"), ("availability test before adding", "src/store/transaction_store.rs can_add_transaction")],
  ["HTTP answers at level 0"], HOOK)

p("C07", "A restart from the saved index gives the same answers",
  "Stopping the indexer at any time and starting it again from its saved index file, however far the node has advanced or (within the allowed depth) reorganised meanwhile, gives after the first poll the same answers at every level as an indexer that ran without interruption. The saved index holds exactly the unspent outputs of final blocks: saving and loading it loses, adds or alters nothing, and it never holds a block that an allowed reorganisation could still replace.",
  ["histories", "crash_points"],
  "every history of blocks, reorganisations, mempool changes and restarts (kill at arbitrary instants)",
  "No test saves or loads an index; histories across restarts are unbounded.",
  ["src/store/store.rs", "src/store/transaction_store_backend.rs", "src/state.rs", "src/main.rs"],
  [("serialisation", "src/store/store.rs to_writer/from_reader"), ("save after the base index grows", "src/main.rs, src/state.rs write")],
  ["HTTP answers after restart", "saved file reloaded"], HOOK)

p("C08", "A crash or write failure while saving never costs the saved index",
  "If the process is killed, or a write to disk fails, at any point while the index is being saved, the index file afterwards still is a complete index: either the previous one or the new one (or still absent if there was none). Starting again then succeeds and answers correctly.",
  ["crash_points", "fault_sequences"],
  "every file-system operation of a save as a kill point (including partially completed writes) and as an I/O error, for the first save and for later ones",
  "Tests do not save, and cannot enumerate crash points.",
  ["src/store/store.rs", "src/main.rs"],
  [("write of the index file", "src/store/store.rs to_file"), ("load at start", "src/store/store.rs from_file")],
  ["file content after the crash", "restart exit status and HTTP answers"], HOOK)

p("C09", "Every answer is one consistent snapshot",
  "Every response, including one listing many addresses, is computed from one single state of the index: a state that resulted from a completed poll, never a mixture of the states before and after an update. Responses to queries issued one after another never go back to an older state.",
  ["schedules", "histories"],
  "every interleaving of concurrent queries (any endpoint, any level) with updates that move value between the queried addresses",
  "No test runs queries and updates concurrently.",
  ["src/state.rs", "src/main.rs", "src/create_server.rs"],
  [("overlays and base index are locked together for a query and for applying an update", "src/state.rs apply_update and query functions")],
  ["HTTP responses during updates"], HOOK)

p("C10", "Updating and saving neither block queries nor stop the indexer",
  "While an update is waiting for the node, or while the index is being written to disk, queries are still answered, from the last applied state. Whatever the overlap of updates, saves and queries, new blocks keep being applied and visible to queries during a save, and the process does not stop.",
  ["schedules"],
  "every interleaving of an update (paused at any node call), a save (paused at any point), block arrivals during it and queries",
  "No test overlaps these activities; the interleavings are not reachable by sampling timing.",
  ["src/state.rs", "src/main.rs"],
  [("update computes under shared locks and applies briefly", "src/state.rs compute_update/apply_update"), ("base index is not modified while it is being saved", "src/state.rs update/write")],
  ["HTTP responses while the node or the disk is held", "process status"], HOOK)

p("C11", "Blocks and transactions are decoded exactly as Bitcoin encodes them",
  "For every well-formed transaction, in legacy or witness encoding, the decoder yields the identifier (double SHA-256 of the encoding without witness data), the spent outpoints and the outputs (value and script bytes) that were encoded, and consumes exactly its bytes, so that all transactions of a block are decoded. Block hash and parent hash are those of the 80-byte header, independent of what follows.",
  ["inputs"],
  "every well-formed transaction and block: any counts (including those needing 3- and 5-byte length prefixes), script and witness lengths, versions, sequence numbers and lock times",
  "There is no test of the decoder.",
  ["src/transaction.rs", "src/block.rs", "src/hashing_buffer_reader.rs"],
  [("hashing reader", "src/hashing_buffer_reader.rs"), ("transaction decoder", "src/transaction.rs from_reader")],
  ["decoder results in process", "HTTP answers for such transactions"])

p("C12", "Addresses, scripts and address text correspond one to one",
  "A script is attributed to an address exactly when it is the standard 25-byte P2PKH or 23-byte P2SH form, and then to the address with that type and 20-byte hash. Every address has one text form, the Base58Check encoding with version 0 or 5, which parses back to it; every other text (altered character, wrong checksum, version, length or character set) is rejected rather than mapped to some address.",
  ["inputs"],
  "every script (including near misses of the two forms), every 20-byte hash of either type, every text (including mutations of valid addresses)",
  "The address and Base58Check modules have no tests at all.",
  ["src/address.rs", "src/base58_check/encode.rs", "src/base58_check/decode.rs", "src/base58_check/checksum.rs", "src/base58/decode.rs", "src/base58/encode.rs"],
  [("script templates", "src/address.rs from_script"), ("checksum verification", "src/base58_check/decode.rs")],
  ["in-process calls", "HTTP 200/400 and the echoed address"])

p("C13", "Every HTTP request gets the right kind of answer",
  "Requests to the four documented resources are answered 200 with JSON when the addresses and the confirmation level (an integer from 0 to the configured maximum, default 0) are valid, and 400 with a JSON error message otherwise; any other path or method gets 404. The address in the path is the one that is answered, whatever the query string says, and no request, however malformed, stops the server or affects other requests.",
  ["inputs", "histories"],
  "every request: method, path, query string, body (valid JSON of any shape, invalid JSON, invalid UTF-8, empty, large), raw malformed HTTP, aborted connections",
  "No test covers the server; the request space is unbounded.",
  ["src/server.rs", "src/create_server.rs"],
  [("router and parameter extraction", "src/server.rs route"), ("parameter validation", "src/create_server.rs parse_*")],
  ["HTTP status, headers and body"], HOOK)

p("C14", "All endpoints agree and report exact amounts",
  "For any list of addresses, the batch endpoints (GET list or POST array) return one entry per requested address, in request order, repeating repeated ones, each equal to what the single-address endpoint returns. The balance is exactly the sum of the listed outputs' values; every amount, read as a decimal number of coins, equals the number of satoshis divided by 100,000,000 exactly to the satoshi, and transaction ids are shown in the usual reversed hexadecimal form.",
  ["inputs", "histories"],
  "every index content with values from 0 to 21 million coins, every address list, every level",
  "No test compares endpoints or formats an amount.",
  ["src/create_server.rs", "src/state.rs", "src/store/transaction_store_backend_trait.rs", "src/reverse_hex.rs"],
  [("response formatting", "src/create_server.rs format_value/format_utxo"), ("balance as a fold over the outputs", "src/store/transaction_store_backend_trait.rs balance")],
  ["HTTP bodies"], HOOK)

p("C15", "The node's answers are understood however they are transported",
  "The indexer only depends on the meaning of the node's replies: chunked or length-delimited bodies, connections closed after each reply or kept alive, replies split at arbitrary points, extra fields, field order and whitespace make no difference. Each call carries the configured credentials as HTTP Basic authentication and block and transaction ids in reversed hexadecimal; the node's 'height out of range' reply means the chain has ended and its 'no such transaction' reply means that one transaction is skipped.",
  ["inputs", "fault_sequences", "configurations"],
  "every transport variation of every reply, every credential string, every placement of the two benign error replies",
  "No test performs a call; the encodings and error placements multiply.",
  ["src/client.rs", "src/base64/encode.rs", "src/hex.rs", "src/reverse_hex.rs"],
  [("request and reply handling", "src/client.rs request"), ("benign error codes", "src/client.rs getrawtransaction/getblockhash")],
  ["requests seen by the node", "HTTP answers"], HOOK)

p("C16", "The indexer stops rather than serving data it cannot keep current",
  "When the update loop cannot continue (the node is unreachable or answers with an unexpected error or garbage, or the chain reorganises so deeply that final blocks are replaced), the whole process ends with a failure status instead of continuing to answer from a frozen state. It never answers with a state that mixes in the failed update, and the saved index stays usable.",
  ["fault_sequences", "histories"],
  "every kind of node failure injected at every call of an update, after any history, and every reorganisation at least as deep as the confirmation depth",
  "No test injects a failure.",
  ["src/executor.rs", "src/client.rs", "src/last_blocks.rs", "src/main.rs"],
  [("a failing task ends the process", "src/executor.rs join"), ("refusal to undo final blocks", "src/last_blocks.rs add_block")],
  ["exit status", "HTTP answers until exit", "restart"], HOOK)

p("C17", "Text codecs are exact inverses and reject everything else cleanly",
  "For hexadecimal, reversed hexadecimal, Base58, Base58Check and Base64, decoding an encoding returns the original bytes for every byte string, and encodings are the standard ones. Any input that is not an encoding yields an error or a value that is consistent with the standard meaning, never an abort; the variants writing into a caller's buffer give the same result for any sufficiently large buffer whatever its previous content, and report a too small one.",
  ["inputs"],
  "every byte string, every text (including non-ASCII, mutated and truncated encodings), every output buffer size and prior content",
  "The existing tests check about ten fixed strings per codec.",
  ["src/hex.rs", "src/reverse_hex.rs", "src/base58/encode.rs", "src/base58/decode.rs", "src/base58_check/encode.rs", "src/base58_check/decode.rs", "src/base64/encode.rs", "src/base64/decode.rs", "src/base_binary/encode.rs", "src/base_binary/decode.rs", "src/base_common/alphabet.rs"],
  [("codecs", "src/hex.rs, src/base58, src/base58_check, src/base64, src/base_binary")],
  ["in-process calls"])

p("C18", "Configuration is taken literally or refused",
  "The program starts only if every required environment variable is present and every variable it reads is well formed; otherwise it exits with a failure without listening and without contacting the node. Given a valid environment it uses exactly the given values, and for the optional ones that are absent the defaults: listen on 127.0.0.1 port 8000, poll every 1000 ms, 6 confirmations.",
  ["configurations"],
  "every assignment of present/absent/malformed values to the environment variables",
  "No test reads the configuration.",
  ["src/configuration.rs", "src/main.rs"],
  [("environment parsing", "src/configuration.rs Configuration::new")],
  ["listening address, node calls, store path, accepted confirmation levels, exit status"], HOOK)

p("C19", "Parallel processing delivers each result exactly once and in order",
  "Handing any sequence of work items to the parallel workers yields the result of each item exactly once; the ordered variant yields them in the order of the items, whatever order the workers finish in. Splitting a list into batches preserves every element and the order, with every batch but the last of the requested size.",
  ["schedules", "inputs"],
  "every item list, worker count, batch size and completion order",
  "No test uses the pools; completion orders are not controlled by any test.",
  ["src/thread_pool.rs", "src/sequential_thread_pool.rs", "src/batcher.rs"],
  [("worker pool", "src/thread_pool.rs"), ("reordering buffer", "src/sequential_thread_pool.rs"), ("batches", "src/batcher.rs")],
  ["in-process iteration results"])

p("C20", "The outpoint view and the address view of the index never diverge",
  "After any sequence of adding and spending outputs, built sequentially, through parallel batches, through overlays or reloaded from disk, the outputs listed for an address are exactly the unspent outputs with that address, with unchanged values, and spending an output removes it from both views. This holds also for outputs and addresses that collide in any internal hashing, and an attempt to spend an output that does not exist in the index is refused rather than ignored.",
  ["histories", "inputs"],
  "every sequence of adds and spends over outpoints and addresses chosen adversarially (sharing hash prefixes, differing in one byte or in the index only, same hash with both address types)",
  "No test touches the index; real chains practically never contain colliding keys.",
  ["src/store/transaction_store_backend.rs", "src/store/transaction_store.rs", "src/hashmap.rs", "src/transaction_output.rs", "src/address.rs"],
  [("two maps updated together", "src/store/transaction_store_backend.rs"), ("custom hashing", "src/hashmap.rs"), ("strict mode", "src/store/transaction_store.rs spend_transaction_outputs")],
  ["in-process queries"], HOOK)

p("C21", "Steps of the wall clock do not disturb the indexer",
  "When the system's wall clock is set backwards or forwards by any amount at any moment while the indexer builds, updates, saves or serves, it keeps running and answers exactly as it would have without the step.",
  ["fault_sequences"],
  "every sequence of clock steps (both directions, any size) at any point of a run",
  "Tests do not control the clock.",
  ["src/chronometer.rs", "src/logger.rs"],
  [("elapsed time for log lines", "src/chronometer.rs")],
  ["process status and HTTP answers under a shifted clock"], HOOK)

p("C22", "The saved index keeps up with the final blocks",
  "Once blocks have become final and the save that follows has ended (a final block that arrives while no save is under way starts one), the saved index contains them all: a restart needs neither the block files nor any final block from the node, which may have pruned them, and answers as an indexer that never stopped.",
  ["histories", "crash_points"],
  "every history of block arrivals, saves and restarts, with every amount of pruning of final blocks by the node and the block files gone",
  "No test saves an index or polls a node; how far the saved index lags behind shows only over histories with restarts.",
  ["src/state.rs", "src/main.rs", "src/store/store.rs"],
  [("save notification after the base index grows", "src/state.rs update, src/main.rs writer task"), ("where the update loop resumes", "src/last_blocks.rs BlockUpdater")],
  ["node calls after a restart", "HTTP answers after a restart"], HOOK)

p("C23", "A poll fetches only what is new",
  "As long as the chain does not reorganise, each block is fetched from the node once and each unconfirmed transaction once while it stays listed: a poll without news fetches no block, and it asks only for listed transactions that the node has not returned yet. After a restart only blocks above the saved index are fetched.",
  ["histories"],
  "every history of block arrivals, mempool additions, evictions and vanishing transactions, and restarts",
  "No test polls a node; the traffic of a poll depends on the whole history before it.",
  ["src/last_blocks.rs", "src/state.rs", "src/client.rs"],
  [("mempool mirror", "src/last_blocks.rs update_mempool"), ("hash comparison before a block is fetched", "src/last_blocks.rs BlockUpdater")],
  ["the calls the node receives"], HOOK)

p("C24", "Nothing but its own index is touched",
  "The program never creates, changes or removes any file except the saved index and companions of it (new files whose names begin with the name of the index): block files, other files beside the index, files of other programs in the working directory stay as they are. Of the node it makes only calls that change nothing.",
  ["histories", "configurations"],
  "every history of builds, polls, saves and restarts, with any other files in the directories the program is given",
  "No test runs the program as a whole.",
  ["src/store/store.rs", "src/block_file_reader.rs", "src/main.rs", "src/client.rs"],
  [("temporary file and rename", "src/store/store.rs to_file"), ("reading of block files", "src/block_file_reader.rs")],
  ["directory contents before and after", "the calls the node receives"], HOOK)

p("C25", "Clients neither delay nor disturb one another or the updates",
  "However many clients are connected, however slowly they send their requests or read their answers, and whatever they leave unfinished: every complete request of every other client is answered with its own answer, answers on one connection come in the order of its requests, and new blocks and transactions keep being applied. An answer that is read slowly arrives complete and shows one single state.",
  ["schedules", "inputs"],
  "every interleaving of the pieces of any number of clients' requests, unread or abandoned answers of any size, and changes of the chain",
  "No test starts the server; the property is over interleavings of several clients and updates.",
  ["src/server.rs", "src/create_server.rs", "src/state.rs"],
  [("request handling", "src/server.rs"), ("answers built under the lock of the overlays and the store", "src/create_server.rs, src/state.rs")],
  ["HTTP answers on many connections", "node calls"], HOOK)

p("C26", "A long run does not use up resources",
  "However long the indexer runs, and whatever comes and goes meanwhile (unconfirmed transactions, replaced blocks, blocks that have become final, saves, clients, polls), the memory, open files and threads it uses are bounded by what it holds now: the index, the blocks not yet final and the listed transactions. They do not grow with the number of polls, saves, requests or past transactions.",
  ["histories"],
  "every sequence of activities repeated any number of times, with large transactions and blocks",
  "No test runs the program for longer than one call.",
  ["src/last_blocks.rs", "src/state.rs", "src/client.rs", "src/server.rs", "src/store/store.rs"],
  [("cache of unconfirmed transactions", "src/last_blocks.rs update_mempool"), ("tail blocks", "src/last_blocks.rs pop"), ("node connections", "src/client.rs"), ("file handles of a save", "src/store/store.rs to_file")],
  ["memory, open files and threads of the process"], HOOK)

p("C27", "A damaged or foreign saved index is refused",
  "A saved index that has been cut short at any point, one that lists an output of an address version the indexer does not know, a file in its place that is no index, or an index whose blocks are not those of the node's (longer) chain is never served from: the program ends with a failure status without answering, or builds the index anew and answers correctly.",
  ["inputs", "crash_points"],
  "every index, cut at every length; other file contents; node chains branching off at any final block or from the start",
  "No test loads an index.",
  ["src/store/store.rs", "src/store/transaction_store_backend.rs", "src/hashing_buffer_reader.rs", "src/last_blocks.rs"],
  [("reading with exact lengths", "src/store/store.rs from_reader, src/hashing_buffer_reader.rs"), ("block hashes must connect", "src/store/store.rs add_block_header, src/last_blocks.rs add_block")],
  ["exit status, HTTP answers"], HOOK)

p("C28", "The saved index serves every configuration",
  "A saved index can be taken over by a program with any other THREADS, BATCH_SIZE, UPDATE_INTERVAL, listening address and CONFIRMATIONS: after the first poll every level from 0 to the new maximum is right. Only with a greater depth may it refuse to start until the chain has grown by the difference; it then never answers wrongly.",
  ["configurations", "histories"],
  "every sequence of configurations over restarts, with every history of blocks, reorganisations and unconfirmed transactions in between",
  "No test loads an index or reads a configuration.",
  ["src/main.rs", "src/state.rs", "src/last_blocks.rs", "src/store/store.rs"],
  [("overlays per level rebuilt from the index's height", "src/last_blocks.rs augmentations"), ("levels counted from the newest block", "src/state.rs augmented_store")],
  ["HTTP answers at every level after restarts"], HOOK)

p("C29", "The saved index keeps its form, whoever wrote it",
  "The saved index has one fixed binary form, so that one build of the indexer takes over what another has saved: all numbers little-endian, a 32-bit count of blocks, the 32-byte hash and previous hash of each from the first block on, a 32-bit count of unspent outputs, and for each its transaction id, 32-bit index, 64-bit value and a byte 1 followed by version and hash of its address, or a byte 0. What the program saves is exactly that for the final blocks recorded and all their unspent outputs, each once. Any file of that form, whatever number of blocks and whatever outputs it lists in whatever order, is served exactly.",
  ["inputs", "histories"],
  "every chain and history that is saved, every index of that form, with every order, number and shape of outputs and any number of blocks",
  "No test writes or reads an index.",
  ["src/store/store.rs", "src/store/transaction_store_backend.rs", "src/buffer_writer.rs", "src/hashing_buffer_reader.rs"],
  [("blocks", "src/store/store.rs from_reader, to_writer"), ("outputs", "src/store/transaction_store_backend.rs from_reader, to_writer"), ("numbers", "src/buffer_writer.rs, src/hashing_buffer_reader.rs")],
  ["the bytes of the saved index", "HTTP answers at every level"], HOOK)

p("C30", "Damaged block files never give wrong answers",
  "When block files are missing, unreadable or damaged in a way that shows in their form (wrong magic numbers or lengths, records missing or cut short, transaction counts larger than what the record holds, other data after the last record), the program, with any number of threads and any batch size, either ends with a failure status without having answered, or its answers are right all the same. No index that would be answered from wrongly is left behind.",
  ["inputs", "configurations"],
  "every combination of such damages at any place of any set of block files, for every thread count and batch size, and the start that follows",
  "No test reads a block file.",
  ["src/block_file_reader.rs", "src/block.rs", "src/transaction.rs", "src/hashing_buffer_reader.rs", "src/store/store.rs", "src/sequential_thread_pool.rs", "src/thread_pool.rs"],
  [("records and their form", "src/block_file_reader.rs scan_block_file, transactions"), ("reading with exact lengths", "src/hashing_buffer_reader.rs"), ("batches merged in order, up to the first that failed", "src/sequential_thread_pool.rs, src/store/store.rs from_blocks")],
  ["exit status, HTTP answers, also after a second start"], HOOK)

p("C31", "What it cannot do ends the indexer",
  "When the indexer does not get what it needs to do its work, the whole process ends with a failure status instead of going on without: when its listening address is taken or not one of the machine, when there is neither an index nor readable block files, when the node cannot be reached at the start, and when the index cannot be saved, at the start or at any later save. Nothing else suffers from it: another instance on the same address goes on, the index saved before stays, and once the obstacle is gone a start succeeds.",
  ["crash_points", "configurations"],
  "every such obstacle, at the start or at any file operation of any save, for every chain",
  "No test runs the program as a whole.",
  ["src/main.rs", "src/executor.rs", "src/server.rs", "src/store/store.rs", "src/block_file_reader.rs", "src/client.rs"],
  [("a part that fails ends the others", "src/executor.rs join, src/main.rs"), ("listening", "src/server.rs run"), ("saving", "src/store/store.rs to_file")],
  ["exit status, HTTP answers of another instance and after the obstacle is gone"], HOOK)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
