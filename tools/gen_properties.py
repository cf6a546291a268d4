#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays valid and reviewable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

prop("C01", "Only pieces matching the torrent's SHA-1 are accepted",
     "Fetching a piece from a peer succeeds only when the SHA-1 of the returned bytes equals, in all 20 bytes, the hash the torrent's metadata records for exactly that piece index. Whatever a peer sends instead (corrupted, truncated, extended, re-ordered or another piece's data), the fetch is reported as failed.",
     ["inputs", "histories"], "All torrents (piece count, piece length, total length), all piece indices, all block contents a peer can answer with.",
     "No existing test calls the piece fetch at all; the two download tests feed one scripted peer and never reach the hash comparison.",
     ["src/peer/manager.rs", "src/torrent/info.rs", "src/actors/connection.rs"],
     [("hash comparison after assembly", "src/peer/manager.rs download(), src/torrent/info.rs verify_piece()")],
     ["return value of the piece fetch against a scripted TCP peer"])

prop("C02", "An honest peer's piece is fetched complete and byte-exact",
     "From a peer that follows the protocol and has the piece, a fetch returns exactly that piece's bytes, for every piece length, total length and piece index, including a short last piece and pieces that are not a multiple of 16 KiB. This does not depend on the order in which the peer sends its bitfield, extension handshake and unchoke (as long as the client gets them among its first messages), on unrelated messages or keep-alives in between, or on whether blocks arrive split across TCP segments.",
     ["inputs", "histories", "schedules"], "All torrent geometries and all protocol-conforming peer behaviours (message order, interleaved have/keep-alive/unknown messages, TCP segmentation).",
     "Tests feed one unchoke and one block from an in-memory buffer; no geometry with more than one block, no interleaving, no segmentation.",
     ["src/peer/manager.rs", "src/peer/mod.rs", "src/peer/buffer.rs", "src/peer/download/mod.rs", "src/peer/download/block.rs", "src/peer/stream.rs"],
     [("handshake and readiness loop", "src/peer/manager.rs init_peer()"), ("block loop", "src/peer/download/mod.rs execute()")],
     ["return value of the piece fetch against a scripted TCP peer"])

prop("C03", "Block requests tile the piece exactly",
     "The block requests the client sends for one piece all name that piece, start at offset 0 and are contiguous without gap or overlap, each asks for at most 16384 bytes and at least 1, and together they end exactly at the end of the piece, never past the end of the piece or of the torrent.",
     ["inputs"], "All torrent geometries and piece indices, all numbers of blocks per piece.",
     "No test looks at the requests sent; the request encoder is tested on one constant.",
     ["src/peer/download/block.rs", "src/peer/download/mod.rs", "src/peer/buffer.rs", "src/messages/request.rs"],
     [("request geometry", "src/peer/download/block.rs next_block()"), ("number of blocks", "src/peer/download/mod.rs real_piece_length()")],
     ["the bytes a scripted TCP peer receives"])

prop("C04", "The client never requests data while choked",
     "On a connection, no block or metadata request is sent before the peer has sent both an unchoke and an extension handshake announcing its metadata size, and none is sent after the client has received a choke. A choke received during a download ends that download with a failure instead of incomplete data.",
     ["histories", "schedules"], "All histories of choke/unchoke/extension-handshake messages around the request phase, for piece and metadata downloads.",
     "One test applies a choke and an unchoke to a peer object; no test watches what is sent on the wire.",
     ["src/peer/mod.rs", "src/peer/manager.rs", "src/peer/download/mod.rs"],
     [("readiness gate", "src/peer/mod.rs is_ready(), src/peer/manager.rs init_peer()"), ("choke check in the loop", "src/peer/download/mod.rs execute()")],
     ["the bytes a scripted TCP peer receives, and the fetch result"],
     state=[("choked", "peer currently refuses requests", "src/peer/mod.rs")])

prop("C05", "Only a peer of the same torrent is used",
     "The handshake the client opens every connection with carries the requested torrent's 20-byte info hash (the one the magnet named, whatever keys the metadata dictionary contains). The client goes on (interest, extension handshake, requests) only with a peer whose answering handshake carries the same 20 bytes; with any other answer the fetch fails and nothing more is sent.",
     ["inputs", "histories"], "All info hashes, all answering handshakes (equal, one bit different, garbage, silent), metadata with and without additional keys.",
     "Handshake encoding is tested on a two-byte hash; the comparison and what follows it are not tested.",
     ["src/peer/manager.rs", "src/peer/mod.rs", "src/messages/handshake.rs"],
     [("info hash comparison", "src/peer/mod.rs apply_content()"), ("abort when not active", "src/peer/manager.rs init_peer()")],
     ["the bytes a scripted TCP peer receives, and the fetch result"])

prop("C06", "Metadata is accepted only if it hashes to the magnet's info hash",
     "Fetching torrent metadata from a peer succeeds only if the SHA-1 of the metadata bytes the peer delivered equals the info hash that was asked for. In every other case (altered, truncated, foreign or re-ordered metadata) the fetch fails and no torrent information is produced.",
     ["inputs", "histories"], "All metadata contents and all peer answers.",
     "The metadata fetch has no test that reaches a decoded torrent.",
     ["src/peer/manager.rs", "src/peer/download/info.rs"],
     [("hash check of assembled metadata", "src/peer/manager.rs get_info()")],
     ["return value of the metadata fetch against a scripted TCP peer"])

prop("C07", "Metadata is fetched completely from an honest peer",
     "From a peer that serves the metadata-exchange extension (any extension id, any message order, keep-alives, segmentation), a metadata fetch asks for metadata pieces 0,1,...,n-1 of 16 KiB in order, each once, using the id the peer announced, and yields the torrent described by that metadata, for every metadata size.",
     ["inputs", "histories"], "All valid metadata dictionaries from a few hundred bytes to several 16 KiB pieces, all peer extension ids, legal peer behaviours.",
     "One test downloads a five-byte metadata block from an in-memory buffer.",
     ["src/peer/manager.rs", "src/peer/download/info.rs", "src/peer/download/mod.rs", "src/messages/extension.rs", "src/messages/mod.rs"],
     [("metadata piece requests", "src/peer/download/info.rs next_piece()"), ("assembly", "src/peer/buffer.rs assemble_content()")],
     ["requests seen by a scripted TCP peer and the returned torrent"])

prop("C08", "No peer can crash or exhaust the client",
     "Whatever finite byte stream a peer sends on a connection (malformed or truncated messages, wild length prefixes, malformed extension dictionaries, missing extension entries), piece and metadata fetches end with success or an ordinary error. They never panic, overflow the stack, or allocate memory out of proportion to the bytes received.",
     ["inputs", "fault_sequences"], "All peer byte streams: mutated protocol conversations, random bytes, adversarial dictionaries and length prefixes.",
     "All message tests use well-formed input.",
     ["src/messages/mod.rs", "src/messages/extension.rs", "src/messages/request.rs", "src/messages/handshake.rs", "src/peer/mod.rs", "src/peer/stream.rs", "src/bencode/decode.rs"],
     [("length checks before parsing", "src/messages/mod.rs new_raw()"), ("message size limit", "src/peer/stream.rs read_stream()")],
     ["outcome of piece and metadata fetches and of message parsing, with an allocation budget"])

prop("C09", "Wire framing is independent of TCP segmentation",
     "Reading a connection yields exactly the sequence of messages (id, body) the peer sent, in order, for every way the byte stream is cut into segments: handshakes are recognised as such, keep-alives are skipped without disturbing the messages after them, and no byte is lost, duplicated or taken into another message.",
     ["inputs", "schedules"], "All sequences of handshakes, keep-alives and messages with bodies from 0 to tens of KiB, all segmentations of the stream, including cuts inside length prefixes and handshakes.",
     "Tests read single messages from an in-memory buffer that is already complete.",
     ["src/peer/stream.rs"],
     [("framing", "src/peer/stream.rs read_stream()")],
     ["messages returned by the stream reader on a TCP connection"])

prop("C10", "Outgoing peer messages follow the wire format",
     "For all parameters, the handshake is the 68-byte BitTorrent handshake with the extension bit, the given info hash and a 20-character alphanumeric peer id; interested, request and metadata-request messages carry a length prefix equal to the number of bytes that follow, the right message id and big-endian fields; and the extension handshake is a well-formed, correctly framed bencoded dictionary announcing ut_metadata.",
     ["inputs"], "All info hashes, piece indices, offsets, lengths, metadata piece indices and extension ids.",
     "Each encoder is tested on one constant (the handshake with a 2-byte hash).",
     ["src/messages/mod.rs", "src/messages/handshake.rs", "src/messages/request.rs", "src/messages/extension.rs", "src/messages/interested.rs", "src/peer/stream.rs", "src/common/generator.rs"],
     [("message constructors", "src/messages/mod.rs")],
     ["encoded bytes; bytes written on a TCP connection"])

prop("C11", "Incoming peer messages are decoded faithfully",
     "For every well-formed message, decoding yields the content it carries: block messages the block bytes after index and offset, bitfields one flag per bit with the most significant bit first, extension handshakes the announced extension ids and metadata size, metadata messages the bytes following the dictionary, and handshakes the info hash. Re-encoding a decoded block, bitfield or handshake message reproduces the received bytes.",
     ["inputs"], "All message ids and well-formed bodies.",
     "One constant per message type.",
     ["src/messages/mod.rs", "src/messages/bitfield.rs", "src/messages/extension.rs", "src/messages/request.rs", "src/messages/handshake.rs"],
     [("decoding by id", "src/messages/mod.rs new_raw()")],
     ["decoded message values"])

prop("C12", "Bencode decoding is exact for every valid document",
     "Decoding any valid bencoded document built of byte strings (including empty ones), non-negative integers up to 2^64-1, lists and dictionaries with UTF-8 keys (nested up to 100 levels) yields exactly the encoded value and consumes exactly its bytes. Bytes after the document are left alone, and decoding again continues with the next document.",
     ["inputs"], "All bencode values and all concatenations of documents and trailing bytes.",
     "Six constant documents; none with an empty string, a large integer, binary data or deep nesting.",
     ["src/bencode/decode.rs", "src/bencode/metainfo.rs"],
     [("recursive descent decoder", "src/bencode/decode.rs")],
     ["decoded values and the consumed byte count"])

prop("C13", "Bencode decoding survives any input and rejects malformed ones",
     "Decoding arbitrary bytes terminates with a value or an error, without panicking, overflowing the stack or allocating out of proportion to the input. A document that is truncated, holds an integer of 2^64 or more, or breaks the grammar inside a string, integer, list or dictionary (missing terminator or colon, length beyond the input, stray byte, non-string key) is reported as an error and never as a value, and a reported value never consumes more bytes than there are.",
     ["inputs"], "All byte strings; in particular all truncations and single-byte corruptions of valid documents, wild lengths and deep nesting.",
     "No test decodes malformed input.",
     ["src/bencode/decode.rs"],
     [("bounds and grammar checks", "src/bencode/decode.rs")],
     ["decoder result, panics, aborts, allocation volume, CPU time"])

prop("C14", "Bencode encoding is canonical and decodes back",
     "The encoding of every string (any Unicode), byte string, integer, list, map and optional value is the canonical bencode form: byte-counted length prefixes, minimal decimal integers, dictionary keys in ascending byte order, absent values omitted. Decoding an encoding gives back the value.",
     ["inputs"], "All strings, byte vectors, integers, lists and maps.",
     "ASCII constants only; byte and character counts coincide there.",
     ["src/bencode/encode.rs", "src/torrent/file.rs", "src/torrent/info.rs"],
     [("Encode implementations", "src/bencode/encode.rs")],
     ["encoded bytes against a reference encoder"])

prop("C15", "Torrent metadata is interpreted exactly",
     "For every valid single-file or multi-file info dictionary (additional unknown keys allowed), the parsed torrent has the piece length, the files in order with their paths and lengths, the total length and the per-piece hashes the dictionary states. For dictionaries with only the standard keys, the torrent's computed info hash is the SHA-1 of the dictionary's bytes.",
     ["inputs"], "All valid info dictionaries: names and paths in any script, 1 to many files (also empty ones), large lengths, any piece count.",
     "Two encode constants; parsing an info dictionary is not tested at all.",
     ["src/torrent/info.rs", "src/torrent/file.rs", "src/bencode/metainfo.rs"],
     [("field extraction", "src/torrent/info.rs from_metainfo(), src/torrent/file.rs from_metainfo()"), ("info hash", "src/torrent/info.rs compute_info_hash()")],
     ["accessors of the parsed torrent"])

prop("C16", "Unusable torrent metadata is rejected, never a crash",
     "An info dictionary that cannot describe a download (missing or mistyped name, pieces, piece length or file entries, zero piece length, neither length nor files, hashes that do not match the number of pieces, lengths that overflow) is rejected with an error. Whenever a dictionary is accepted, every operation on the torrent (total length, files, hash of every piece, info hash) works without panicking.",
     ["inputs"], "All bencoded values as info dictionary: field deletions, retypings and boundary values applied to valid ones, and arbitrary bytes.",
     "No test parses an info dictionary, valid or not.",
     ["src/torrent/info.rs", "src/torrent/file.rs"],
     [("validation", "src/torrent/info.rs from_metainfo()")],
     ["result of parsing and of the accessors"])

prop("C17", "The metadata cache reloads exactly and survives torn files",
     "Torrent metadata saved to the cache and loaded again is identical to what was saved. If the process stopped part-way through saving, or the file is missing, empty or garbage, loading reports an error (so that the metadata is fetched again) and never panics or produces other metadata. When the program is stopped and started again, a torrent whose metadata had been saved is downloaded without asking peers for the metadata; if the cache file was damaged, the metadata is fetched and saved anew and the download completes.",
     ["inputs", "crash_points", "histories"], "All torrents; all prefixes of the cache file (crash points), corrupted and arbitrary contents, overwriting an older cache file; histories of restarts.",
     "Saving and loading have no test.",
     ["src/torrent/info.rs", "src/actors/torrent.rs"],
     [("JSON cache", "src/torrent/info.rs save(), from_file()"), ("use of the cache", "src/actors/torrent.rs collect_info()")],
     ["loaded torrent, file contents, requests that reach the peers"])

prop("C18", "Written pieces reproduce the torrent's files exactly",
     "Once every piece has been written, in whatever order and also if pieces are written repeatedly, each file of the torrent exists with exactly its bytes and length, for every layout of files against piece boundaries, including empty files and offsets beyond 4 GiB. Writing one piece changes only the bytes of the files that belong to that piece.",
     ["inputs", "histories"], "All file layouts, piece lengths and write orders.",
     "Eight constant layouts compared as internal values; only one test touches the disk, with one file.",
     ["src/torrent/writer.rs"],
     [("piece to file mapping", "src/torrent/writer.rs get_file_writers()"), ("positioned write", "src/torrent/writer.rs write_to_filesystem()")],
     ["the files on disk"])

prop("C19", "A torrent cannot write outside the download directory",
     "Whatever file paths a torrent declares (parent-directory components, absolute paths, empty components, embedded separators), writing its pieces never creates or modifies anything outside the working directory. Harmless paths (nested directories, unusual but legal names) are still written where they belong.",
     ["inputs"], "All lists of path components.",
     "No test writes with a hostile path.",
     ["src/torrent/writer.rs", "src/torrent/file.rs"],
     [("path check before writing", "src/torrent/writer.rs write_to_filesystem()")],
     ["a scratch directory tree scanned before and after, as an unprivileged user"])

prop("C20", "A file that cannot be written does not stop the others",
     "If a file of the torrent cannot be created or written (name too long or invalid, a directory in its place, a file where a directory is needed, no permission), writing the piece reports an error instead of panicking or claiming success, all other files' parts of that piece are written correctly, and later pieces are written as usual.",
     ["inputs", "fault_sequences"], "All layouts with one or more unwritable files, all pieces, all kinds of obstacles.",
     "No test writes to an unwritable place.",
     ["src/torrent/writer.rs", "src/actors/writer.rs"],
     [("error propagation instead of unwrap", "src/torrent/writer.rs write()")],
     ["files on disk and the write result"])

prop("C21", "A magnet link yields the info hash it names",
     "For every magnet link with an xt=urn:btih: parameter carrying a 40-digit hexadecimal info hash in any letter case, the parsed info hash is exactly those 20 bytes, wherever the parameter stands and whichever other parameters are present or absent. A 32-character base32 info hash names the same 20 bytes.",
     ["inputs"], "All info hashes, letter cases, parameter sets and orders.",
     "Two constant links, both with the hash in the first position and trailing parameters.",
     ["src/torrent/magnet.rs"],
     [("magnet parsing", "src/torrent/magnet.rs parse_magnet()")],
     ["parsed info hash"])

prop("C22", "Malformed magnet links are rejected without crashing",
     "For arbitrary bytes given as a magnet link, parsing returns a magnet or an error and never panics. Links without the magnet scheme, without a btih info hash, or with an info hash that has the wrong length or a digit outside its alphabet are rejected.",
     ["inputs"], "All byte strings; in particular all truncations and corruptions of valid links.",
     "One link with a wrong scheme.",
     ["src/torrent/magnet.rs"],
     [("validation", "src/torrent/magnet.rs parse_magnet()")],
     ["parse result"])

prop("C23", "The HTTP API accepts magnets and survives everything else",
     "Posting a valid magnet to /add/magnet answers 200 and announces its info hash to every built-in tracker; posting anything else answers a 4xx client error and announces nothing. No sequence of requests makes the server drop a connection unanswered or stop answering. It is served to the local host only.",
     ["inputs", "histories"], "All request histories mixing valid magnets, malformed magnets and arbitrary bodies.",
     "The HTTP layer and the actors have no tests.",
     ["src/main.rs", "src/torrent/magnet.rs", "src/actors/trackers_interface.rs", "src/actors/tracker.rs"],
     [("request handler", "src/main.rs add_magnet()"), ("fan-out", "src/actors/trackers_interface.rs")],
     ["HTTP responses of the running program, datagrams received at the trackers' addresses in a private network namespace"])

prop("C24", "UDP tracker announces follow BEP 15 and return all peers",
     "An announce sends a connect request, then a 98-byte announce request carrying the connection id just received, the info hash and a 20-byte peer id, and returns exactly the peers of the tracker's answer, in order, from one peer upwards. Lost connect requests or answers are repaired by resending (up to four attempts).",
     ["inputs", "fault_sequences"], "All connection ids, info hashes and peer lists, all loss patterns of up to three connect exchanges, duplicated connect answers.",
     "The UDP tracker client has no tests.",
     ["src/tracker/udp_tracker.rs", "src/tracker/mod.rs", "src/tracker/peer_endpoint.rs"],
     [("connect and announce", "src/tracker/udp_tracker.rs call()")],
     ["datagrams at a scripted UDP tracker and the returned peers"])

prop("C25", "Bad UDP tracker answers give an error, never peers or a hang",
     "If a UDP tracker does not answer, or answers with packets that are too short, carry a foreign transaction id, or are of the wrong action (such as an error message), the announce ends with an error within bounded time. It never panics and never returns peers made of bytes that are not an announce response to this request.",
     ["inputs", "fault_sequences"], "All datagrams and fault sequences: silence, truncation, corruption of header fields, error actions, random bytes.",
     "The UDP tracker client has no tests.",
     ["src/tracker/udp_tracker.rs"],
     [("response validation and timeouts", "src/tracker/udp_tracker.rs")],
     ["result of the announce against a scripted UDP tracker"])

prop("C26", "HTTP tracker announces carry the info hash and return all peers",
     "An HTTP announce requests the tracker's own URL (path and existing query kept) with the exact info hash bytes percent-encoded and a 20-character peer id, and returns exactly the peers of the compact list in the answer, in order. Any other answer (error status, failure reason, malformed or truncated bencode, missing or mistyped peers, closed connection) gives an error, never a panic.",
     ["inputs", "fault_sequences"], "All info hashes, tracker URLs, peer lists and response bodies.",
     "One test with a one-byte info hash, one answer.",
     ["src/tracker/tcp_tracker.rs", "src/tracker/mod.rs", "src/tracker/peer_endpoint.rs"],
     [("announce URL and response parsing", "src/tracker/tcp_tracker.rs call()")],
     ["requests at a scripted HTTP tracker and the returned peers"])

prop("C27", "Compact peer lists are decoded exactly",
     "A compact peer list of n complete 6-byte entries decodes to exactly n endpoints in order, each with the dotted IPv4 address of its first four bytes and the big-endian port of its last two; an incomplete trailing entry is ignored. Every endpoint's textual form is a valid socket address.",
     ["inputs"], "All byte strings.",
     "One constant entry.",
     ["src/tracker/peer_endpoint.rs"],
     [("decoding", "src/tracker/peer_endpoint.rs from_bytes()")],
     ["decoded endpoints"])

prop("C28", "The piece pool hands out every piece exactly once",
     "A new pool for n pieces hands out each of 0..n-1 exactly once and then reports that it is empty; a piece that is put back is handed out again, once per time it was put back, after the pieces already waiting. This holds for every interleaving of takes and returns from any number of threads sharing the pool.",
     ["histories", "schedules"], "All sequences of takes and returns; concurrent histories from 2 to 8 threads.",
     "Three tests with at most one element and a single thread.",
     ["src/peer/piece_pool.rs"],
     [("mutex-protected queue", "src/peer/piece_pool.rs")],
     ["values handed out"])

prop("C29", "A download completes despite failing peers",
     "After a magnet is added and more than ten peers with the torrent have been found, the program downloads every piece and leaves files on disk identical to the torrent's content, even though individual attempts fail (connection refused or dropped, wrong handshake, choke, corrupt or missing data), as long as retried pieces eventually meet an honest answer. Failed pieces are requested again, no piece is forgotten, and unverified data never reaches the files.",
     ["histories", "schedules", "fault_sequences"], "All torrents (geometry, file layout) and all finite sequences of faults injected into the peers' answers, over the schedules of five concurrent connections.",
     "The actors, which schedule and retry pieces, have no tests.",
     ["src/actors/torrent.rs", "src/actors/connection.rs", "src/actors/writer.rs", "src/actors/tracker.rs", "src/main.rs"],
     [("retry of failed pieces", "src/actors/torrent.rs Handler<PieceDownloadFailed>"), ("next piece after success", "src/actors/torrent.rs Handler<PieceDownloadSuccessfull>")],
     ["files written by the running program, requests seen by scripted peers in a private network namespace"],
     state=[("piece pool", "pieces still to be requested", "src/actors/torrent.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
