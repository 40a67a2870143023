#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

API, IDX, KV, DBM, UT = "src/api.rs", "src/db/index.rs", "src/db/kv.rs", "src/db/mod.rs", "src/utils.rs"
BP, BPM = "bff-modp/src/bfusep32.rs", "bff-modp/src/prelude/bfusep.rs"
PRE = "bff-modp/src/prelude/mod.rs"
MEM = ["bff-modp/src/prelude/bfuse.rs", "bff-modp/src/prelude/fuse.rs", "bff-modp/src/prelude/xor.rs", PRE,
       "bff-modp/src/hash_proxy.rs", "bff-modp/src/xor8.rs", "bff-modp/src/xor16.rs", "bff-modp/src/xor32.rs",
       "bff-modp/src/fuse8.rs", "bff-modp/src/fuse16.rs", "bff-modp/src/fuse32.rs",
       "bff-modp/src/bfuse8.rs", "bff-modp/src/bfuse16.rs", "bff-modp/src/bfuse32.rs"]

prop("C01", "Index retrieval returns exactly the requested record",
 "Whenever a client asks an index database for a row and decodes the server's response with the parameters the query was made from, it gets exactly the stored record of that row, in each of the three output forms (number row, bytes, base64), and reading the record directly on the server gives the same bytes, also after the matrix was turned into row form, which turning it again undoes. This holds for every database content, row, element size, plaintext width and dimension whose worst-case noise stays below half a plaintext step, and for every history of concurrent clients, lost, duplicated, delayed or reordered messages and client retries with new parameters. Once message loss stops, every client gets its record within a bounded number of attempts.",
 ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
 "All databases and parameters within the noise budget; all interleavings of any number of clients and server workers; all loss/duplication/delay/reordering sequences; all outcomes of the random draws.",
 "One test reads rows 0..9 of one 4096-record random database with one element size (256 bits) and one plaintext width (11 bits), one client, no transport; element sizes that are a multiple of the plaintext width, other widths, the row and byte output forms, biased random draws and interleaved clients are never tried.",
 [API, IDX, DBM, UT],
 [("query generation", "src/api.rs QueryParams<IndexDatabase,_>::generate_query"), ("response", "src/api.rs Shard::respond"), ("decoding", "src/api.rs parse_resp_as_row/bytes/base64"), ("packing", "src/utils.rs format"), ("hint", "src/db/mod.rs generate_params_rhs")],
 [("entries", "column-major plaintext matrix", IDX), ("rhs", "client hint A*DB", IDX)],
 ["parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64", "into_row_iter", "get_db_entry"])

prop("C02", "Keyword retrieval returns exactly the value stored under the key",
 "Whenever a client asks a key-value database for a stored key and decodes the server's response with the parameters the query was made from, it gets exactly the value stored under that key, in each output form; turning the server's matrix into row form and back does not change it. This holds for every non-empty map with pairwise distinct keys (also keys that are permutations of each other's words), every value, element size, plaintext width and dimension whose worst-case noise stays below half a plaintext step, and every history of concurrent clients, lost, duplicated, delayed or reordered messages and retries with new parameters. Once message loss stops, every client gets its value within a bounded number of attempts.",
 ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
 "All maps with distinct keys and parameters within the noise budget; all interleavings, message faults and random outcomes.",
 "One test reads 10 keys of one random 4096-entry map with one size and width, compares only the number row, with one client and no transport; small maps, structured keys, other widths, biased draws and interleavings are never tried.",
 [API, KV, DBM, UT, BP, BPM, PRE],
 [("query generation", "src/api.rs QueryParams<KVDatabase,_>::generate_query"), ("filter construction", "src/db/kv.rs StorageFilters::from_kvs; bff-modp/src/prelude/bfusep.rs"), ("unmasking", "src/db/kv.rs FilterParams::unmask_value"), ("key hashing", "bff-modp/src/prelude/mod.rs mix256")],
 [("filter_params", "seed and segment geometry shared with clients", KV)],
 ["parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64"])

prop("C03", "Query parameters produce at most one query",
 "A set of query parameters yields at most one query in its whole life. After it has yielded one, every later attempt - on the same object, on a clone, or on a copy restored from its serialized form, before or after responses were decoded with it, and whatever target is asked - is refused with the reuse error and yields no query.",
 ["histories", "crash_points", "inputs"],
 "All sequences of use, refused use, failed use, clone, serialize/restore (any format), response decoding and transfer to another thread, for both database kinds.",
 "The test makes one successful and one refused attempt on one index object; clones, restored copies, key-value parameters, decoding in between and failed attempts are not covered.",
 [API], [("used flag", "src/api.rs generate_query (both kinds)"), ("serialization of the flag", "src/api.rs derive on QueryParams")],
 [("used", "whether a query was already produced", API)], ["generate_query result"])

prop("C04", "What a client sends does not depend on the target beyond its mask",
 "With the same parameters and the same random draws, preparing a query for any two targets succeeds or fails alike, draws the same amount of randomness, and gives queries of the same size that differ only by one fixed public constant added (modulo 2^32) at the positions of each target: the row for index queries, the key's filter positions for keyword queries. The response has the same size for every query.",
 ["inputs", "configurations", "histories"],
 "All pairs of targets, databases and parameter sizes, and all outcomes of the random draws (including those where the addition wraps).",
 "No test compares two queries; wrap-around needs a draw that occurs once in 2^plaintext-bits queries, and an error there looks like a rare failure, not like a leak.",
 [API, UT, KV], [("indicator addition", "src/api.rs generate_query (both kinds)"), ("constant", "src/utils.rs lwe::get_rounding_factor")],
 [], ["Query::as_slice", "generate_query result", "length of respond()'s output"])

prop("C05", "Every query is blinded with fresh, uniform ternary randomness",
 "Every set of query parameters masks the query with the public matrix times a secret vector plus a noise vector, where every entry of both is -1, 0 or 1, drawn independently and uniformly from the operating system's entropy for that set alone. No two sets, of the same or different clients, threads, processes or restarts, share their secret or any stretch of their noise, and equal entropy gives equal parameters.",
 ["histories", "schedules", "inputs", "configurations"],
 "All entropy streams (uniform, boundary-valued, biased), all dimensions and heights, all interleavings of clients generating parameters concurrently.",
 "Tests only look at decoded results, which come out right for any secret and noise, including all-zero or repeated ones.",
 [UT, DBM, API], [("ternary sampling with rejection", "src/utils.rs random_ternary(_vector)"), ("masking", "src/db/mod.rs CommonParams::mult_left"), ("per-parameter sampling", "src/api.rs QueryParams::new")],
 [], ["Query::as_slice with a diagnostic public matrix", "entropy calls at the system-call seam"])

prop("C06", "Entropy failures fail closed",
 "If the operating system's entropy source is interrupted or returns short reads at any point, building a database or query parameters still completes with the full amount of fresh randomness. If it fails with an error at any point, the operation does not complete: no database, parameters or query made with missing, zero or substitute randomness ever reaches the caller, and after the source recovers new operations work.",
 ["fault_sequences", "crash_points", "histories"],
 "All positions and sequences of EINTR, short and failing entropy calls within the operation.",
 "No test makes the entropy source misbehave.",
 [UT, KV, DBM, API, PRE], [("OsRng use", "src/utils.rs random_ternary, random::generate_seed"), ("filter seed", "src/db/kv.rs StorageFilters::from_kvs")],
 [], ["result of KVShard/Shard construction and generate_*_query_params under injected getrandom faults"])

prop("C07", "The server is stateless: responses depend only on database and query",
 "A server's response is a function of its database and the query alone: the matrix-vector product modulo 2^32. The same query gives byte-identical responses however often, in whatever order and from whatever thread it is asked, interleaved with any other queries and errors, and serving never changes the database or its parameters.",
 ["histories", "schedules", "inputs"],
 "All histories of well-formed queries from concurrent workers sharing one database, including long ones, repeated and near-identical queries.",
 "Tests send ten different queries once each from one thread, and check only the decoded record.",
 [API, IDX, KV, UT], [("respond", "src/api.rs Shard::respond, KVShard::respond"), ("product", "src/utils.rs vec_mult_u32_u32")],
 [("db", "matrix shared by all workers", API)], ["respond() bytes", "serialized shard before and after"])

prop("C08", "Damaged queries get an error and do not disturb the service",
 "A query whose length does not match the database (truncated, extended or empty on its way) makes the server return an error, never abort and never give a response; a damaged query of the right length is answered like any other vector. Queries served before, at the same time and afterwards by the same server are answered correctly.",
 ["fault_sequences", "histories", "inputs"],
 "All truncations, extensions and bit damage of queries, interleaved with well-formed queries from other clients.",
 "No test sends a malformed query.",
 [API, IDX, KV, UT], [("length check", "src/api.rs respond; src/db/*.rs vec_mult; src/utils.rs vec_mult_u32_u32")],
 [], ["respond() result", "panics"])

prop("C09", "A truncated response never decodes to a record",
 "Decoding a response that lost words on its way never returns a record in any output form, but fails. The complete response, arriving later or as a duplicate, still decodes to exactly the requested record with the same parameters.",
 ["fault_sequences", "histories", "inputs"],
 "All truncation lengths, both database kinds, all output forms, any order of damaged and intact copies.",
 "No test decodes a damaged response.",
 [API], [("bounds of the decoding loop", "src/api.rs parse_resp_as_row (both kinds)")], [], ["parse_resp_as_* result"])

prop("C10", "Writing a database to files succeeds completely or reports an error",
 "When writing the database matrix and the public parameters to files reports success, both files hold exactly the whole current matrix and parameters, also where they replace files of any length and content and when the system splits or interrupts the writes. When the disk fills up or any call fails, an error is reported, nothing aborts, and no other file changes. A parameter file that was written can be loaded again and gives the same parameters.",
 ["fault_sequences", "crash_points", "inputs"],
 "All positions of interrupted, short and failing open/write calls, all disk sizes, all previous file contents, both database kinds.",
 "No test writes a file.",
 [IDX, KV, DBM, API], [("matrix dump", "src/db/index.rs, src/db/kv.rs write_to_file"), ("parameter dump", "src/db/mod.rs BaseParams::write_to_file"), ("parameter loading", "src/db/index.rs IndexParams::load")],
 [], ["simulated files after write_to_file", "IndexParams::load"])

prop("C11", "Loading from files gives exactly what is stored, or an error",
 "Loading a database or parameters from a file gives exactly the stored records or parameters, also when reads are split or interrupted. If the file is missing or unreadable, a read fails, or the file was cut short, has unwritten (zero-filled) parts, trailing garbage or invalid text after a crash, or repeats a key, loading returns an error: it never aborts and never gives a partial or different database.",
 ["fault_sequences", "crash_points", "inputs"],
 "All positions of interrupted, short and failing open/read calls; all crash points of a writer of the file; both database kinds.",
 "No test loads a file.",
 [API, IDX], [("JSON loading", "src/api.rs Shard::from_json_file, KVShard::from_json_file; src/db/index.rs from_file, IndexParams::load")],
 [], ["from_json_file / from_file / load result", "records of the loaded database"])

prop("C12", "Building a key-value database always succeeds for distinct keys",
 "Building a key-value database from any non-empty set of distinct keys succeeds after a bounded amount of work, whichever values the entropy source returns, as long as it keeps returning new ones; an unlucky random draw is retried with a new one. The database that results serves every key.",
 ["inputs", "histories", "configurations"],
 "All sets of distinct keys (any size from one up) and all entropy streams, in particular those whose first draws make the construction fail.",
 "Tests draw one random seed per run; a failing draw is rare at the tested size (about 0.2%), where it hangs the test, and other sizes are not tried.",
 [KV, BP, BPM], [("seed choice", "src/db/kv.rs StorageFilters::from_kvs"), ("peeling attempt", "bff-modp/src/prelude/bfusep.rs bfusep_from_impl")],
 [("seed", "filter seed shared by all columns", KV)], ["KVShard::new / from_base64_strings result", "retrieval of every key"])

prop("C13", "The mod-p filter recovers every value it was built from",
 "A mod-p filter that was built successfully returns, for every key it was built from, the key's value modulo the plaintext modulus, both through direct lookup and by adding up the published entries at the key's positions and its mask; positions lie inside the filter and are the same for every label and value. This holds for every modulus from 256 to 2^31, seed, label, distinct keys and values, whatever entropy filled the unused entries, and for copies restored from the serialized filter; building never hangs or aborts.",
 ["inputs", "configurations", "histories"],
 "All key sets, seeds, labels, moduli (powers of two or not), values, filler entropy and serialization histories.",
 "The filter's own tests use one modulus (1024), one label and equal key words, and are excluded as flaky; the other crate uses two moduli.",
 [BP, BPM, PRE], [("construction", "bff-modp/src/prelude/bfusep.rs bfusep_from_impl"), ("lookup", "bff-modp/src/prelude/bfusep.rs bfusep_retrieve_impl"), ("positions", "bfusep_hash_eval_impl"), ("filler", "bff-modp/src/prelude/mod.rs make_fp_block")],
 [], ["retrieve", "get_fingerprints_mod + hash_eval + get_key_fingerprint"])

prop("C14", "Membership filters have no false negatives and replicas agree",
 "Every membership filter (8, 16 and 32 bit of each of the three families, and the hashing proxy) that was built from a set of distinct keys reports every one of them as contained, whatever entropy filled it and at every size for which building succeeds. Building from distinct keys returns a filter or, for the fallible families, an error; it never hangs or aborts. Copies restored from the serialized form, also in another process or after lost, duplicated and reordered deliveries, answer every question like the original.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "All distinct key sets and sizes, filler entropy, input container types, serialization formats and delivery histories.",
 "Tests use only one size (1,000,000 random keys; or 1,000 for the failing case) per kind, with working entropy, never restore a filter, and most are excluded as flaky.",
 MEM, [("construction and lookup", "bff-modp/src/prelude/{bfuse,fuse,xor}.rs"), ("proxy hashing", "bff-modp/src/hash_proxy.rs")],
 [], ["contains", "try_from / from result"])

prop("C15", "Membership filters keep their false-positive rate",
 "With a working entropy source, a membership filter answers 'contained' for keys it was not built from at no more than its documented rate, up to sampling error: 0.4% for 8-bit, 0.002% for 16-bit and effectively never for 32-bit fingerprints, at every size and for structured as well as random keys. Slots that no key needs are filled from the entropy source in the families that promise it, differently in every build.",
 ["inputs", "configurations", "histories"],
 "All key sets and sizes for which building succeeds, all filler entropy.",
 "Tests sample one size with random keys, and those for 8 and 16 bit are excluded as flaky.",
 MEM, [("fingerprints", "bff-modp/src/prelude/mod.rs fingerprint!"), ("filler", "bff-modp/src/prelude/mod.rs make_fp_block")], [], ["contains on non-members", "fingerprints of two builds"])

prop("C16", "Crash and restart with serialized state is transparent",
 "A server restarted from its serialized database answers every query, also those in flight, byte for byte as before, publishes the same matrix and filter and hands out the same public parameters. A client restarted from serialized parameters, saved before or after its query was sent, decodes the response exactly as the original would; a client that has only the serialized public parameters derives the same public matrix as every other party.",
 ["crash_points", "histories", "fault_sequences"],
 "All crash points of clients and servers between protocol steps and within steps, all serialization formats, message loss around the restart.",
 "No test serializes anything but responses.",
 [API, IDX, KV, DBM, UT], [("derived serialization", "src/api.rs Shard, KVShard, QueryParams, Query, Response; src/db/*.rs"), ("matrix expansion from the seed", "src/utils.rs generate_lwe_matrix_from_seed")],
 [], ["respond() bytes after restart", "decoded record after restart", "CommonParams::as_matrix"])

prop("C17", "Decoding tolerates every noise below half a plaintext step",
 "If every word of a response is off by any amount, positive or negative, that together with the query's own noise stays strictly below half a plaintext step, the decoded record is unchanged, in every output form and for every stored value including the smallest and largest.",
 ["inputs", "fault_sequences", "configurations"],
 "All stored values, plaintext widths and perturbations up to the bound, all outcomes of the random draws, both database kinds.",
 "Tests see only the noise that uniform draws produce, far below the bound, and only one output form per kind.",
 [API, UT], [("rounding", "src/api.rs parse_resp_as_row (both kinds)"), ("step size", "src/utils.rs lwe")], [], ["parse_resp_as_* on perturbed responses"])

prop("C18", "Bit-packing helpers are exact inverses",
 "Converting a byte string to bits and back, and a number to bits and back, gives the original for every content, length and width up to 32 bits.",
 ["inputs"], "All byte strings, numbers and widths.",
 "Tests reach the helpers only through whole queries of one size.",
 [UT], [("helpers", "src/utils.rs format")])

prop("C19", "Command-line and environment settings are parsed as documented",
 "Benchmark settings given as exponents, sizes and booleans are turned into exactly the documented parameter values, and anything else is refused.",
 ["inputs"], "All settings.", "There is no test of the settings parser.",
 ["pi-rs-cli-utils/src/lib.rs"], [("parsing", "pi-rs-cli-utils/src/lib.rs parse_from_env, parse_cli_flags")])

prop("C20", "Every database has its own public matrix, made from all of a fresh seed",
 "Every database is set up with a 256-bit public seed of its own (a key-value database also with a filter seed), drawn from the operating system's entropy for that database alone, whichever thread, process or restarted server builds it. The public matrix is expanded from all bits of the seed: its words look uniform and independent, no stretch of a row or column occurs twice, at whatever height and dimension, and the matrices of two different seeds, however close, have nothing in common.",
 ["histories", "schedules", "crash_points", "inputs", "configurations"],
 "All histories of databases set up by concurrent threads, restarted servers and forked processes, with interrupted and shortened entropy reads; all seeds, heights and dimensions.",
 "No test looks at a seed or at two matrices; retrieval works just as well with a constant, repeated or half-random matrix, and only the privacy of the queries is gone.",
 [UT, IDX, KV, DBM], [("seed", "src/utils.rs random::generate_seed; src/db/index.rs IndexParams::new; src/db/kv.rs KVParams::new"), ("filter seed", "src/db/kv.rs StorageFilters::from_kvs"), ("expansion", "src/utils.rs matrices::generate_lwe_matrix_from_seed; src/db/mod.rs From<&T> for CommonParams")],
 [("public_seed", "seed of the public matrix", "src/db/index.rs, src/db/kv.rs")], ["get_public_seed", "get_filter_params", "CommonParams::as_matrix", "bytes drawn from the entropy source"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
