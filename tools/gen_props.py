#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S = "src/"

p("C01", "Bencode encoding is canonical and round-trips",
  "Encoding any value built from non-empty strings, signed integers of any width, lists and dictionaries succeeds and yields the one canonical bencoding of that value (dictionary keys in byte order), however the value was built. Decoding that output yields an equal value, up to the extremes of the 64-bit range and nested thousands of levels deep. Values containing an empty string or an unsupported type are refused with an error.",
  ["inputs"], "every value tree over a small alphabet of strings, integers (with all width and boundary values), lists and dictionaries up to a size bound, every dictionary insertion order",
  "The tests encode a handful of literals and three torrent files; map iteration order, boundary integers and nesting combinations are not reached.",
  [S+"bencode/encode.go", S+"bencode/decode.go"],
  [("encode / encodeDict sorts keys", S+"bencode/encode.go:encodeDict"), ("decodeInt, decodeString, decodeList, decodeDict", S+"bencode/decode.go")],
  observe=["bencode.Encode", "bencode.Decode"])

p("C02", "Bencode decoding is total and exact",
  "For every byte string, decoding ends with a value or an error, never a crash or a hang, however deeply the input nests. Well-formed bencoding decodes to exactly the value it denotes, and input that is truncated, contains a malformed or out-of-range integer, a string longer than the remaining data or a non-string key is rejected. Typed dictionary lookups return the stored value only when the key is present with that type (and is non-negative for the unsigned lookup), and an error otherwise.",
  ["inputs"], "every byte string over the bencode alphabet up to a length bound, every prefix and every one-byte edit of a family of valid documents, and deep nestings",
  "The tests decode about twenty literals; the space of malformed torrent files and tracker replies an attacker can send is unbounded.",
  [S+"bencode/decode.go", S+"bencode/dict.go"],
  [("recover turns out-of-range reads into errors", S+"bencode/decode.go:Decode"), ("typed getters check presence and type", S+"bencode/dict.go")],
  state=[("decoder.curs", "read cursor into the input", S+"bencode/decode.go:decoder")],
  observe=["bencode.Decode", "bencode.Dict.Get*"])

p("C03", "The infohash identifies the torrent file's info dictionary",
  "When a torrent file loads, its infohash is the SHA-1 of the exact bytes of the info value in that file, whatever extra keys, key order, empty strings or number spellings the info dictionary contains. It never depends on anything outside those bytes (announce URL, comments, key position, working directory). A torrent whose info bytes cannot be determined is rejected rather than given some other hash.",
  ["inputs"], "every torrent file from a generated family: extra and missing info keys, empty values, unsorted or repeated keys, nesting, and every placement of info among the outer keys",
  "Three well-formed sample torrents are tested; a wrong hash for any other shape makes the client join a different swarm.",
  [S+"torrent/torrent.go", S+"bencode/decode.go", S+"bencode/encode.go"],
  [("hash of the info dictionary", S+"torrent/torrent.go:FromTorrentFile")],
  observe=["torrent.FromTorrentFile(...).Infohash()"])

p("C04", "Loading metainfo never crashes and yields consistent metadata",
  "Loading a torrent file with any content ends with an error or with a torrent, never a crash or a hang. A loaded torrent reports exactly the name, announce URL, piece length, hashes, file paths and file lengths of the file; its piece length is positive, no file length is negative, the total length is the sum of the file lengths, the number of pieces is that total divided by the piece length rounded up, and the last piece length is what remains for the last piece. Metainfo that cannot satisfy this is rejected.",
  ["inputs"], "every metainfo dictionary from a product of per-key variants (missing, wrong type, zero, negative, extreme, mismatched hash counts, malformed file entries) and every truncation of valid ones",
  "Only three valid torrents are loaded; malformed or hostile metadata is never tried.",
  [S+"torrent/torrent.go", S+"torrent/info/info.go", S+"torrent/filesd/entrybase.go", S+"torrent/filesd/flist.go", S+"torrent/info/piecemap.go"],
  [("FromDict / NewTorInfo validation", S+"torrent/info/info.go"), ("FromBenList", S+"torrent/filesd/entrybase.go"), ("MakePieceMap byte count check", S+"torrent/info/piecemap.go")],
  observe=["torrent.FromTorrentFile", "torrent.Torrent.Info()"])

p("C05", "A torrent's files stay inside the working directory",
  "Whatever name and path components a torrent file contains, either it is rejected or every local file path lies strictly below the working directory, and in a multi-file torrent strictly below the torrent's own folder in it. Different files of one torrent never share a local path. Ordinary names and nested paths are accepted and mapped to working directory / [torrent name /] path.",
  ["inputs"], "every name and every list of path components over an alphabet of ordinary, empty, '.', '..', separator-containing and absolute components up to a length bound, for several working directories",
  "Tests only use benign names; an attacker chooses these strings and the client opens, truncates and zero-fills the resulting paths.",
  [S+"torrent/info/info.go", S+"torrent/filesd/entrybase.go"],
  [("local path computation", S+"torrent/info/info.go:FromDict"), ("path component joining", S+"torrent/filesd/entrybase.go:FromBenList")],
  state=[("EntryBase.localPath", "where the file is opened on disk", S+"torrent/filesd/entrybase.go")],
  observe=["info.FromDict(...).Files()[i].LocalPath()"])

p("C06", "Pieces tile the torrent's content exactly",
  "For every list of file lengths (empty files included) and every positive piece length, the locations of pieces 0..n-1 taken in order cover every byte of every file exactly once, in file order, and each piece but the last has exactly the piece length. Looking up the files of a piece returns exactly the files that piece has bytes of, in order, besides possibly empty files at that position. Lookups of an index outside 0..n-1 return an error or at most empty files.",
  ["inputs", "configurations"], "every file list up to a bound on count and lengths, every piece length up to a bound, and scaled copies beyond 2^31 and 2^32 bytes",
  "Tests check eight hand-made layouts; boundary alignment of files and pieces has many more combinations.",
  [S+"torrent/filesd/flist.go", S+"torrent/filesd/entry.go", S+"torrent/info/piecemap.go", S+"torrent/info/info.go"],
  [("start/end piece and offset arithmetic", S+"torrent/filesd/flist.go:MakeFileList"), ("seek/read amounts", S+"torrent/filesd/entry.go:PieceInfo"), ("piece map", S+"torrent/info/piecemap.go:MakePieceMap")],
  observe=["info.TorInfo.PieceLookup", "filesd.FileList.GetFiles", "filesd.CalcNumPieces"])

p("C07", "Piece storage behaves like the torrent's flat byte array",
  "Through any history of piece writes and reads, a write with the right data succeeds, lands at the piece's byte range across its files and changes nothing else; a write whose data does not match the piece hash is refused and changes nothing; a read returns exactly the piece's current bytes and their count. File sizes never change. Out-of-range indices are errors, and a failing disk operation is reported as an error, never as success.",
  ["histories", "inputs", "fault_sequences"], "every operation sequence up to a depth over every piece (good data, corrupted data, wrong-length data, out-of-range index, read, close, move) on a family of layouts, and every single injected I/O fault or short transfer",
  "Tests write all pieces once in order on two layouts; corrupt data, other orders, empty files, large offsets and I/O errors are not reached.",
  [S+"torrent/fileio/fileio.go", S+"torrent/info/piecemap.go", S+"utils/utils.go"],
  [("hash check before write", S+"torrent/fileio/fileio.go:WritePiece"), ("per-location read/write", S+"torrent/fileio/fileio.go:ReadPiece")],
  state=[("FileIO.lfps", "open files by local path", S+"torrent/fileio/fileio.go")],
  observe=["fileio.FileIO.WritePiece", "fileio.FileIO.ReadPiece", "file contents"])

p("C08", "Concurrent piece I/O is isolated",
  "When several peers' goroutines read and write different pieces at the same time, under every interleaving each write lands exactly and each read returns exactly its piece, as if it had run alone. Goroutines that meet on the same piece do not harm either: a read of a piece that is being written returns, byte by byte, what was there before or what is written, and writes of it all take effect. No interleaving deadlocks or races on shared memory. After all operations complete every written piece verifies.",
  ["schedules"], "every interleaving (up to a preemption bound) of two and three goroutines doing one to three piece operations that share files",
  "The tests are single-threaded.",
  [S+"torrent/fileio/fileio.go"],
  [("per-file RWMutex and positional I/O", S+"torrent/fileio/fileio.go:read,write")],
  state=[("lockedFp.lock", "guards one open file", S+"torrent/fileio/fileio.go")],
  observe=["fileio.FileIO.ReadPiece/WritePiece results and file contents"])

p("C09", "Preparing a file never destroys usable data",
  "Opening a torrent file at a required length succeeds for an absent file (missing parent folders are created), a shorter, an equal and a longer one, and leaves a file of exactly that length whose first min(old,new) bytes are the old ones and whose remainder is zero. If any disk operation fails, or the process dies at any point, the old bytes within the required length are still on disk, and a failure is reported as an error.",
  ["inputs", "fault_sequences", "crash_points"], "every initial state and required length around the boundaries (0, 1, the 1 MiB block size and its multiples), every single operation failing or writing short, and every crash point",
  "Tests create new files of three sizes; existing content, growth, truncation, failing calls and crashes are not reached.",
  [S+"utils/futils.go", S+"torrent/fileio/fileio.go"],
  [("open / create / append / truncate", S+"utils/futils.go:OCAT,AppendZeros,CreateZeroFilledFile")],
  observe=["utils.OCAT", "fileio.FileIO.OCATAll", "file contents"])

p("C10", "Startup knows exactly which pieces are on disk",
  "After startup validation the set of pieces held is exactly the set of pieces whose bytes on disk match the torrent's hashes, for every on-disk state, including every state left by a crash in the middle of any write history (partial pieces, torn writes, lost writes, wrong file sizes, missing files). Acknowledged pieces that reached the disk are never forgotten, and no corrupt or incomplete piece is ever advertised. The amount announced to the tracker as left is the total length of the pieces not held.",
  ["crash_points", "inputs"], "every crash prefix and torn last write, every subset of lost writes, of short write histories, and every combination of per-piece disk corruption, on a family of layouts",
  "No test runs validation at all.",
  [S+"swarm/swarm.go", S+"torrent/fileio/fileio.go", S+"bf/bitfield.go", S+"tracker/stats.go"],
  [("Validate rehashes every piece", S+"swarm/swarm.go:Validate"), ("startup order", S+"swarm/swarm.go:NewSwarm")],
  state=[("Swarm.Bf", "pieces held", S+"swarm/swarm.go")],
  observe=["swarm.Swarm.Bf after Validate / NewSwarm", "announce request"])

p("C11", "A bitfield is a set of piece indices",
  "Through any sequence of set, clear, fill, resize and construct-from-bytes operations, a bitfield answers membership, count and completeness exactly like a set of indices below its size. Its wire form has bit i at byte i/8 from the most significant bit down, has exactly the needed number of bytes, and never has a spare bit set that was not received from outside. Constructing from bytes accepts exactly the sizes that need that many bytes.",
  ["histories", "inputs"], "every reachable state of bitfields up to a size bound under every operation, every byte pattern and every size for short inputs",
  "Tests check 8-bit patterns and fifteen operations; counts are not checked after mixed operations, resizing and filling not at all.",
  [S+"bf/bitfield.go"],
  [("Set/Get/calcNset/SetNbits/Fill", S+"bf/bitfield.go")],
  state=[("Bitfield.nset", "number of set bits", S+"bf/bitfield.go")],
  observe=["bf.Bitfield methods"])

p("C12", "Peer messages have the specified wire layout and round-trip",
  "Every message the client can build encodes to the exact BitTorrent layout (4-byte big-endian length, id, big-endian fields, payload) for all field values and payload sizes. Decoding that encoding yields a message of the same type with equal fields and consumes exactly its bytes, also when followed by other data. Encoding does not change the message or the data it was built from, and encodings are independent of each other.",
  ["inputs"], "every message type with every field drawn from byte-boundary values, block and bitfield sizes across the 1- and 2-byte length boundaries, alone and followed by other messages",
  "Request encoding and piece decoding have no test; the others are sampled at one to four values.",
  [S+"p2p/message.go", S+"p2p/request.go", S+"p2p/piece.go", S+"p2p/have.go", S+"p2p/bitfield.go", S+"p2p/no_payload.go", S+"p2p/keepalive.go"],
  [("Encode methods", S+"p2p/*.go"), ("Decode", S+"p2p/message.go:Decode")],
  observe=["p2p.Message.Encode", "p2p.Decode"])

p("C13", "Decoding peer data is total and never aliases the buffer",
  "For every byte string a peer can send, decoding ends with messages or an error, never a crash or a hang, and claims to have read no more bytes than it was given. Decoding a concatenation of well-formed messages returns exactly those messages in order and reads every byte; a message with a wrong length, an unknown type or too little data yields no message. Decoded messages do not change when the receive buffer is reused.",
  ["inputs"], "every byte string over a boundary alphabet up to a length bound, every message sequence up to a length bound, with every length field replaced by every boundary value (including those near 2^32) and every truncation",
  "Tests decode about twenty literals; piece messages, zero-length bitfields and lengths near 2^32 are not among them.",
  [S+"p2p/message.go", S+"p2p/bitfield.go", S+"p2p/piece.go", S+"p2p/have.go", S+"p2p/request.go"],
  [("length checks", S+"p2p/message.go:Decode"), ("progress of the decode loop", S+"p2p/message.go:DecodeAll"), ("copying payloads", S+"p2p/bitfield.go:DecodeMsgBitfield")],
  observe=["p2p.Decode", "p2p.DecodeAll"])

p("C14", "Piece selection is exclusive and rarest-first",
  "Through any history of peers announcing pieces, leaving and asking for work, the piece handed to a peer is one we lack, that the peer has, that no other present request holds, and that is at most as common among current peers as any other such piece (all counts from 63 peers up may be treated as equal); if there is such a piece, one is handed out, otherwise none. When a peer leaves, exactly the pieces handed to it become available again and its announcements no longer count. This holds for any number of peers, each connection counting as one peer even if several lead to the same address, without crashing.",
  ["histories"], "every operation sequence up to a depth for small numbers of pieces and peers (breadth-first over reachable states), also starting from 60 to 70 peers sharing pieces",
  "Tests ask each peer for one piece after registration; a second request, requests after departures and more than four peers are not reached.",
  [S+"swarm/piecetracker.go", S+"utils/ds/linklist.go", S+"utils/ds/set.go"],
  [("buckets by availability", S+"swarm/piecetracker.go:register,Unregister"), ("active flag and request lists", S+"swarm/piecetracker.go:NextPiece")],
  state=[("piece.active", "the piece is handed out", S+"swarm/piecetracker.go"), ("buckets", "pieces by peer count", S+"swarm/piecetracker.go")],
  observe=["swarm.PeerPieceTracker.NextPiece/Register/RegisterBF/Unregister"])

p("C15", "Piece selection is atomic under concurrency",
  "When several peers announce pieces, ask for work and leave at the same time, under every interleaving the results are those of some sequential order of the same calls. In particular two peers never hold the same piece at once. No interleaving deadlocks, crashes or races on shared memory.",
  ["schedules"], "every interleaving (up to a preemption bound) of two to four goroutines with one to three tracker calls each on two or three pieces",
  "The tests are single-threaded.",
  [S+"swarm/piecetracker.go"],
  [("tracker mutex", S+"swarm/piecetracker.go")],
  state=[("PeerPieceTracker.mutex", "guards all tracker state", S+"swarm/piecetracker.go")],
  observe=["call results of swarm.PeerPieceTracker under a controlled scheduler"])

p("C16", "A seeder sends exactly the requested bytes and only held pieces",
  "For every request a connected peer can send, the reply is exactly one piece message with the same index and offset and exactly the torrent's bytes of that range, provided the piece is held and the range lies inside that piece. Every other request (piece not held, index or range outside, overflowing offset plus length) gets no data and never crashes the client or harms other peers. Bytes that are not the torrent's content at that position are never sent.",
  ["inputs", "histories"], "every request with index, offset and length drawn from all small values and all boundary values up to 2^32-1, against every held-set of small torrents, in sequences of up to three requests",
  "No test exercises request handling.",
  [S+"swarm/msghandler.go", S+"swarm/peerhandler.go", S+"torrent/fileio/fileio.go", S+"p2p/piece.go"],
  [("handleRequest", S+"swarm/msghandler.go:handleRequest")],
  state=[("PeerHandler.buf", "piece buffer reused between requests", S+"swarm/peerhandler.go")],
  observe=["bytes on the peer connection"])

p("C17", "Only correctly handshaken peers of this torrent are served",
  "An incoming connection is accepted exactly when its first 68 bytes are a BitTorrent handshake for our infohash, however the network splits them; it is then answered with our handshake (our infohash and peer id) followed by a bitfield of exactly the pieces we hold with spare bits zero. Anything else gets no bytes back and is closed, a silent peer within the handshake timeout. On outgoing connections we send the same handshake and drop the peer unless it answers with a valid handshake for our infohash.",
  ["inputs", "schedules"], "every single-byte change of a valid handshake, every split of it into up to three reads and every truncation, for several held-sets, incoming and outgoing",
  "No test exercises connections.",
  [S+"swarm/handshake.go", S+"swarm/peerhandler.go"],
  [("ValidHandshake", S+"swarm/handshake.go"), ("FromIncoming / FromBootstrap", S+"swarm/peerhandler.go")],
  observe=["bytes on the peer connection", "swarm.FromIncoming", "swarm.FromBootstrap"])

p("C18", "Message handling does not depend on TCP segmentation",
  "For every sequence of well-formed messages from a peer, the replies are the same for every way the network splits the byte stream into reads, including splits inside length prefixes and payloads and several messages per read. No message is lost, duplicated, reordered or invented by splitting.",
  ["inputs", "schedules"], "every message sequence from a small family and every split of its bytes into up to four reads, plus byte-by-byte delivery, plus messages longer than the receive buffer",
  "No test feeds a handler from a stream; the wire decoder is only tested on whole messages.",
  [S+"swarm/peerhandler.go", S+"swarm/msghandler.go", S+"io/readloop.go", S+"p2p/message.go"],
  [("receive loop and handleMessage", S+"swarm/peerhandler.go:recvLoop")],
  observe=["bytes on the peer connection"])

p("C19", "Piece requests tile the piece in spec-sized blocks",
  "Once a peer's bitfield is known, the requests sent to it are for pieces that we lack and it has, no piece to two peers at once, and for each such piece they form consecutive, non-overlapping blocks of at most 16 KiB that start at zero and end exactly at the piece's length, the shorter last piece included. No more than a handful of pieces are requested before any arrives, and the request phase ends.",
  ["inputs", "configurations"], "every piece length around the 16 KiB block boundaries, every last-piece length class, held-set and peer bitfield of small torrents, with one and two peers",
  "No test exercises the request loop.",
  [S+"swarm/peerhandler.go", S+"p2p/request.go", S+"swarm/piecetracker.go"],
  [("requestLoop / createReqMessages", S+"swarm/peerhandler.go")],
  observe=["request messages on the peer connection"])

p("C20", "A departing peer is torn down completely",
  "Whenever a peer connection ends (peer closes, read or write error, malformed or hostile message, silence beyond the timeout), at any point and under every interleaving, the handler returns, all goroutines it started end, the connection is closed, and the pieces it had claimed become available to other peers. No interleaving deadlocks or panics, and other peers' handlers continue.",
  ["schedules", "fault_sequences"], "every interleaving up to a preemption bound of the handler's goroutines with each kind of connection end at each point of a short session, one and two peers",
  "No test runs a peer handler.",
  [S+"swarm/peerhandler.go", S+"io/readloop.go", S+"swarm/piecetracker.go"],
  [("Loop, chErr/chDone, procs", S+"swarm/peerhandler.go:Loop"), ("Unregister", S+"swarm/piecetracker.go")],
  state=[("PeerHandler.procs", "running loops of the handler", S+"swarm/peerhandler.go")],
  observe=["goroutines, connection state and tracker under a controlled scheduler"])

p("C21", "The rate limiter admits, delivers and makes progress",
  "With a write limit of R>0 bytes per second set, no write starts in a one-second window once R bytes have been admitted in it, whatever the number of concurrent writers; reads likewise. Every write passes its exact data to the destination once, returns the destination's error, and completes once later windows begin; a call waits only while the R bytes of the current window are used up, and with no limit nothing waits. Under every interleaving nothing deadlocks or races on shared memory, and stopping the limiter ends its loop.",
  ["schedules"], "every interleaving up to a preemption bound of two or three readers/writers, a rate change, the window timer and stop, for several rates and sizes",
  "Package io has no tests at all.",
  [S+"io/ratelimit.go"],
  [("lock, used counters and ticker reset", S+"io/ratelimit.go")],
  state=[("wUsed/rUsed", "bytes admitted in the current window", S+"io/ratelimit.go")],
  observe=["io.RateLimitIO under a controlled scheduler and clock"])

p("C22", "The read loop hands over every byte once and always stops",
  "The read loop delivers the connection's bytes in order, each exactly once, and never overwrites delivered data before the consumer says it is ready. An error or end of stream is reported after all data. Finish, called at any moment and under every interleaving, returns and ends the loop, also while a read is waiting, an error is pending or the loop has already ended.",
  ["schedules", "fault_sequences"], "every interleaving up to a preemption bound of the loop, the consumer and Finish, with every split of a short stream, each error point and timeouts",
  "Package io has no tests at all.",
  [S+"io/readloop.go"],
  [("chBuf/chReady/chErr/chDone protocol", S+"io/readloop.go:Run,Finish,Ready")],
  state=[("ReadLoop.buf", "single receive buffer shared with the consumer", S+"io/readloop.go")],
  observe=["io.ReadLoop under a controlled scheduler"])

p("C23", "Tracker announces carry the exact parameters",
  "For every torrent, peer id, port and statistics, the announce is a GET to the torrent's announce URL that keeps that URL's own query and whose decoded parameters are exactly the infohash bytes, the peer id bytes, the port, uploaded, downloaded and left, with a compact peer list requested. A malformed, unsupported or unreachable announce URL or a failing transfer gives an error, never a crash.",
  ["inputs", "fault_sequences"], "every value of each infohash and peer id byte, boundary ports and counters, announce URLs with and without queries and malformed, and each transport failure",
  "No test builds a request; percent-encoding must be right for all 256 byte values.",
  [S+"tracker/tracker.go", S+"tracker/stats.go"],
  [("newRequest / do", S+"tracker/tracker.go")],
  observe=["HTTP request issued by tracker.Get"])

p("C24", "Tracker replies are read faithfully or rejected",
  "For every reply body, the announce ends with an error or with a response equal to what the reply says: interval, minimum interval, seeders, leechers, warning, tracker id and exactly the listed peers in order with their addresses and ports, in compact and in dictionary form, IPv4 and IPv6, each with a dialable host:port address. A failure reason gives an error containing that reason; replies with missing, negative or ill-typed required fields, bad addresses, out-of-range ports or a compact list that is not a multiple of six bytes are rejected. No reply crashes or hangs the client.",
  ["inputs"], "every reply from a product of per-field variants, compact lists of every length up to a bound with boundary bytes, and every truncation of valid replies",
  "One compact reply is tested; the dictionary form, failures, malformed and hostile replies are not.",
  [S+"tracker/tracker.go", S+"peer/info.go", S+"bencode/dict.go"],
  [("newResponse, GetPeers", S+"tracker/tracker.go"), ("MakePeer", S+"peer/info.go")],
  observe=["tracker.Get"])

p("C25", "Creating a torrent hashes exactly the content",
  "For every set of files and every positive 31-bit piece length, also larger than the internal buffer, creating a torrent terminates and yields exactly the SHA-1 of each consecutive piece of the concatenated content, the right file list, piece count and last piece length. The metadata round-trips: encoded to a torrent file and loaded again it has the same infohash and contents, and the original files validate completely against it. Unreadable files and non-positive piece lengths give an error.",
  ["inputs", "configurations"], "every small combination of file sizes and piece lengths, and totals and piece lengths around the internal buffer size, and every split of reads into short reads",
  "Three samples are tested; buffer-boundary totals, unaligned files and large pieces are not.",
  [S+"torrent/info/info.go", S+"utils/utils.go", S+"torrent/torrent.go"],
  [("CreateTorInfo buffer loop", S+"torrent/info/info.go:CreateTorInfo"), ("SegmentData", S+"utils/utils.go")],
  observe=["info.CreateTorInfo", "torrent.NewTorrent", "torrent.FromTorrentFile"])

p("C26", "Command-line limits and options mean what they say",
  "A rate limit of the form X, XB, XK, XM or XG (either case, optional minus sign) is taken as exactly X times 1, 1, 1024, 1024^2 or 1024^3 bytes; anything else, including values beyond 64 bits, is refused and the program does not start. A negative limit means unlimited. A missing torrent path, an unknown command or a port above 65535 is refused.",
  ["inputs"], "every limit string over the alphabet of digits, units, sign and junk up to a length bound, boundary magnitudes for every unit, and boundary ports",
  "No test parses options.",
  [S+"utils/opts.go", S+"main.go"],
  [("parseSizeUnits, Validate", S+"utils/opts.go")],
  observe=["the gotor program's behaviour for its arguments"])

p("C27", "The list and set containers behave like their models",
  "Through any history of insertions at the front, removals, clearing and moving elements between lists, a linked list enumerates exactly its current elements, most recently inserted first, consistently in both directions. A set reports membership, size, its items and whether an insertion or removal changed it exactly like a mathematical set keyed by the elements' keys.",
  ["histories"], "every operation sequence up to a depth bound over a few elements and two lists, explored breadth-first",
  "Tests perform five removals and three insertions.",
  [S+"utils/ds/linklist.go", S+"utils/ds/set.go"],
  [("node links and size", S+"utils/ds/linklist.go"), ("map keyed by Key()", S+"utils/ds/set.go")],
  observe=["ds.LinkedList", "ds.Set"])

p("C28", "Idle connections are kept alive and silent ones dropped",
  "While a peer connection is open and healthy, a keep-alive goes out at least every two minutes however idle or busy the session is. A peer that sends nothing for more than the receive timeout of two minutes is dropped, and one that sends anything (keep-alives included) within every two minutes is not.",
  ["schedules", "histories"], "every sequence up to a bound of silence periods around the 60 s and 120 s thresholds and messages, in virtual time, under interleavings up to a preemption bound",
  "Real timeouts of minutes are out of reach of unit tests.",
  [S+"swarm/peerhandler.go", S+"io/readloop.go"],
  [("pingLoop", S+"swarm/peerhandler.go:pingLoop"), ("read deadline", S+"io/readloop.go:Run")],
  observe=["timestamps of bytes on the peer connection under a virtual clock"])

p("C29", "Outbound frames never interleave",
  "Under every interleaving of the goroutines writing to a peer (replies, keep-alives, requests, choke and unchoke), the byte stream the peer receives is a sequence of whole well-formed messages after the handshake; choking a peer sends it exactly one choke message. Replies go only to the peer that asked, and with several peers served at once each receives exactly its own replies, in request order, with the right bytes.",
  ["schedules"], "every interleaving up to a preemption bound of one and two peer sessions with requests, keep-alive timers and request loops over a shared swarm",
  "No test runs a peer handler, let alone two.",
  [S+"swarm/peerhandler.go", S+"swarm/msghandler.go", S+"io/ratelimit.go", S+"p2p/bitfield.go"],
  [("one Write per message", S+"swarm/peerhandler.go"), ("per-handler buffer", S+"swarm/peerhandler.go:NewPeerHandler")],
  observe=["bytes on each peer connection"])

p("C30", "Starting a swarm contacts each known peer exactly once and listens",
  "When a swarm starts, every peer the tracker returned is dialled exactly once at its own address and served independently, whichever of them fail to connect. Incoming connections are accepted on the configured port at the same time, and one peer's failure, slowness or misbehaviour neither stops the others nor the listener.",
  ["schedules", "fault_sequences"], "every interleaving up to a preemption bound of start-up with up to three tracker peers (reachable, refusing, hanging) and up to two incoming connections (valid, invalid, silent)",
  "No test starts a swarm.",
  [S+"swarm/swarm.go", S+"swarm/peerhandler.go"],
  [("Start, runListener", S+"swarm/swarm.go")],
  observe=["dialled addresses, accepted connections and bytes on them"])

p("C31", "Nothing a peer sends can damage the content",
  "Whatever messages peers send, in whatever order and number, and however malformed, the bytes of every piece that was verified at start stay intact on disk and keep being announced and served correctly to everyone, no other file is created or removed and no file changes its length. A piece that was not verified is never announced or served unless its bytes on disk match the torrent's hash.",
  ["inputs", "histories", "schedules"], "every sequence of messages up to a depth over an alphabet of right, wrong, partial, overlong, out-of-range and malformed ones, on one and on two connections, and every interleaving up to a delay bound",
  "Tests feed single well-formed messages to handlers; sequences of hostile messages over shared files are not reached.",
  [S+"swarm/msghandler.go", S+"swarm/peerhandler.go", S+"torrent/fileio/fileio.go", S+"p2p/message.go"],
  [("handlePending, handleMessage", S+"swarm/msghandler.go"), ("ReadPiece", S+"torrent/fileio/fileio.go")],
  observe=["files in the working directory", "bitfield and pieces a new connection gets"])

p("C32", "One identity per run",
  "For every torrent file, port and set of peers, one run of the program presents one identity: the infohash (the SHA-1 of the file's info bytes) and the 20-byte peer id it announces to the tracker are those in every handshake it sends, to the peers it dials as well as to those that connect, and the port it announces is the configured one, which is the one it listens on. The peer id starts with -GT0000- and is chosen anew for every run.",
  ["configurations", "schedules"], "every combination of 22 spellings of torrent files, 10 ports, up to three dialled and two incoming peers, and every interleaving up to a delay bound of the start of a swarm",
  "No test creates a swarm from options or looks at what several parts of it tell others.",
  [S+"swarm/swarm.go", S+"swarm/handshake.go", S+"swarm/peerhandler.go", S+"tracker/tracker.go", S+"utils/utils.go"],
  [("NewSwarm", S+"swarm/swarm.go"), ("announce request", S+"tracker/tracker.go"), ("NewPeerId", S+"utils/utils.go")],
  state=[("Swarm.Id", "the peer id of this run", S+"swarm/swarm.go:Swarm")],
  observe=["the tracker's request log", "handshakes on connections", "listening address"])

p("C33", "Clients understand each other",
  "When two gotor clients for the same torrent are connected, whichever dialled, each is told by the other's first message exactly which pieces the other has, unchokes, asks for pieces that it lacks and the other has and for no others, in whole, and gets exactly one answer with the right bytes for each block it asked for. However the byte stream is cut on its way, neither breaks the connection, which is still open after minutes.",
  ["configurations", "schedules"], "every pair of sets of held pieces for torrents of up to four pieces, triples for three pieces, several ways to cut the byte stream, with and without limits, and every interleaving up to a delay bound",
  "No test connects two clients; both sides of the protocol are only tested against literals.",
  [S+"swarm/peerhandler.go", S+"swarm/msghandler.go", S+"swarm/handshake.go", S+"io/readloop.go", S+"p2p/message.go"],
  [("FromConn, FromBootstrap", S+"swarm/peerhandler.go"), ("RequestPiece", S+"swarm/peerhandler.go"), ("HandleRequest", S+"swarm/msghandler.go")],
  observe=["bytes in both directions between two real clients"])

p("C34", "Inspecting a torrent shows its metadata and touches nothing",
  "The info command prints the torrent's name, infohash, announce URL, piece length, number of pieces, total length and files as they are in the torrent file, and exits successfully. For a file that is no valid torrent it reports an error. In either case it contacts nobody, and creates, changes and removes no file, whatever is in the working directory.",
  ["inputs", "configurations"], "every torrent file of a family with lengths at all unit boundaries, every one- and two-field damage and truncation of valid ones, and every state of the working directory",
  "No test runs the program.",
  [S+"main.go", S+"torrent/torrent.go", S+"torrent/info/info.go", S+"utils/utils.go"],
  [("info command", S+"main.go"), ("FromTorrentFile", S+"torrent/torrent.go"), ("String methods", S+"torrent/info/info.go")],
  observe=["output and exit of the gotor program", "the directory tree before and after", "the tracker's request log"])

p("C35", "No peer can hold up the others",
  "Whatever one peer or several do (take none of our data or only part of it, flood us with requests, stay silent, stop in the middle of a message or handshake, send garbage, reset, or cannot be dialled), every other peer keeps being accepted, told what we have and answered without delay, at any time of the session. Without an upload limit no answer to a well-behaved peer waits for another peer's connection, timeout or backlog.",
  ["fault_sequences", "schedules"], "every combination of up to three of fourteen kinds of misbehaving peers beside incoming, dialled and newly arriving good ones, at seven times of a session, and every interleaving up to a delay bound",
  "No test runs two peers.",
  [S+"swarm/swarm.go", S+"swarm/peerhandler.go", S+"swarm/msghandler.go", S+"swarm/piecetracker.go", S+"io/ratelimit.go"],
  [("PeerHandlers and PPT locks", S+"swarm/swarm.go"), ("write deadline", S+"swarm/peerhandler.go"), ("runListener", S+"swarm/swarm.go")],
  observe=["bytes and their times on every peer connection"])

p("C36", "An idle client rests, and a busy one stays bounded",
  "The client never waits by keeping the processor busy: while nobody does anything it only wakes up for its timers, a few dozen times a second per live connection at the most, whatever happened before (peers that came, left, stalled or misbehaved, failing accepts, an upload limit in force), and the program left alone keeps running on next to no processor time. Threads, memory and open files stay in proportion to the live connections, however much a peer sends and however little it takes; a peer that takes no replies has its further requests left unread, a message without an end is not collected; and a connection that has ended leaves no thread, timer, buffer or file behind.",
  ["fault_sequences", "schedules", "histories"], "every sequence of up to three of 21 session events, floods of every message kind, a turnover of many connections, every interleaving of single events up to a delay bound, and the real program's idle time",
  "No test runs a swarm or the program.",
  [S+"main.go", S+"swarm/swarm.go", S+"swarm/peerhandler.go", S+"swarm/msghandler.go", S+"swarm/piecetracker.go", S+"io/ratelimit.go", S+"io/readloop.go"],
  [("CmdSwarm", S+"main.go"), ("requestLoop and pingLoop tickers", S+"swarm/peerhandler.go"), ("pending bytes and message limit", S+"swarm/msghandler.go"), ("requests", S+"swarm/piecetracker.go")],
  observe=["scheduler steps, clock wake-ups, threads, heap and open files", "processor time of the gotor program"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
