"""The properties, as data; gen.py writes properties.jsonl and MANIFEST.json from it."""
I, H, F, S, C = 'inputs', 'histories', 'fault_sequences', 'schedules', 'configurations'


def p(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                             hook_needed=None))


PROPS = [
    p('C01', 'Only pieces whose SHA-1 matches the metadata are reported as downloaded',
      'Whatever a peer sends, bytes are handed on as the successfully downloaded content of a piece only if their SHA-1 digest equals the 20 bytes that the torrent metadata lists for that piece index. In every other case the piece is reported as failed.',
      [I, H], 'every byte sequence a peer may send, every metadata value, every piece index',
      'The tests feed one or two mocked messages; a wrong comparison, offset or a skipped check shows only for other piece indexes or for hostile content.',
      ['src/actors/connection.rs', 'src/peer/manager.rs', 'src/torrent/info.rs'],
      [('hash comparison before a piece is returned', 'src/peer/manager.rs download, src/torrent/info.rs verify_piece'),
       ('report of success', 'src/actors/connection.rs handler')], ['message that reports a downloaded piece']),
    p('C02', 'Torrent metadata is used only if its SHA-1 is the requested info hash',
      'Torrent metadata, whether received from a peer or read from the local cache, becomes the metadata of a torrent only if its SHA-1 digest equals the info hash that the user asked for.',
      [I, F], 'every peer answer, every content of the cache file, every info hash',
      'No test runs the metadata exchange or the cache with content that hashes to something else.',
      ['src/actors/torrent.rs', 'src/peer/manager.rs', 'src/torrent/info.rs'],
      [('hash comparison of fetched metadata', 'src/peer/manager.rs get_info'), ('hash comparison of cached metadata', 'src/actors/torrent.rs collect_info')],
      ['metadata stored in the torrent']),
    p('C03', 'Files are written only inside the download folder',
      'Whatever names and paths the metadata of a torrent contains, no file is created, opened for writing or written outside the folder the client runs in: a path built from the metadata is used only when it has no absolute, parent-folder or drive component.',
      [I], 'every metadata value, including names with separators and dot-dot components',
      'The tests use a few plain file names.',
      ['src/torrent/writer.rs', 'src/torrent/file.rs', 'src/actors/torrent.rs', 'src/torrent/info.rs'],
      [('check of path components before opening', 'src/torrent/writer.rs')], ['file system calls that create or open for writing']),
    p('C04', 'Nothing but the handshake is sent before the peer proves the info hash',
      'On a connection to a peer, the client sends nothing except its own handshake until it has received a handshake from that peer that carries the same info hash as the torrent.',
      [I, H], 'every sequence of messages a peer may send, in any order and with any content',
      'Tests apply single messages to a peer; none checks what is sent after a missing, late or wrong handshake.',
      ['src/peer/manager.rs', 'src/peer/mod.rs', 'src/messages/handshake.rs'],
      [('peer becomes active only on an equal info hash', 'src/peer/mod.rs apply_content'), ('initial exchange', 'src/peer/manager.rs init_peer')],
      ['writes to the peer socket']),
    p('C05', 'No block is requested from a peer that is choking the client',
      'A block request is sent only while the last choke or unchoke message received from that peer was an unchoke; every peer counts as choking until it says otherwise.',
      [I, H], 'every sequence of messages from the peer',
      'Tests cover one choke followed by one unchoke, without requests.',
      ['src/peer/download/mod.rs', 'src/peer/mod.rs'],
      [('choke check before the next request', 'src/peer/download/mod.rs execute'), ('choke state', 'src/peer/mod.rs apply_message')], ['request messages written to the peer socket']),
    p('C06', 'No bytes from a peer can crash the client',
      'Whatever bytes a peer sends or fails to send, during the handshake, the metadata exchange or the download of a piece, the client does not panic: no index or slice out of range, arithmetic overflow, failed conversion or unwrap.',
      [I, H, F], 'every byte stream, cut off anywhere, in any split into reads; every metadata and piece index',
      'Tests use well-formed messages only; panics need a truncated or inconsistent one.',
      ['src/peer/stream.rs', 'src/peer/mod.rs', 'src/peer/manager.rs', 'src/peer/download/mod.rs', 'src/peer/buffer.rs', 'src/messages/mod.rs', 'src/messages/extension.rs',
       'src/messages/bitfield.rs', 'src/messages/request.rs', 'src/messages/handshake.rs'],
      [('length checks before parsing', 'src/messages/mod.rs new_raw'), ('framing', 'src/peer/stream.rs read_stream')], ['the actor that downloads a piece', 'the function that fetches metadata']),
    p('C07', 'Decoding bencode never panics',
      'For every byte sequence, decoding it as bencode ends with a value or an error and never panics.',
      [I], 'every byte sequence of every length', 'Tests decode a dozen well-formed values.',
      ['src/bencode/decode.rs', 'src/bencode/metainfo.rs'], [('checked access to the input', 'src/bencode/decode.rs')], ['result of decoding']),
    p('C08', 'Decoding bencode always terminates within bounded depth',
      'Decoding any byte sequence terminates: every loop makes progress through the input or towards a fixed bound, and nesting is followed only to a constant depth, so that no input exhausts the stack.',
      [I], 'every byte sequence, including deeply nested and endless ones', 'Tests contain nesting of depth two or three.',
      ['src/bencode/decode.rs'], [('depth limit', 'src/bencode/decode.rs decode_nested'), ('progress through the input', 'src/bencode/decode.rs')], ['recursion and loops of the decoder']),
    p('C09', 'Inconsistent torrent metadata never crashes the client',
      'Whatever metadata a torrent has (piece length zero, hashes of the wrong size, missing or contradicting files and lengths), decoding, storing, using it to address pieces and writing pieces to files never panics.',
      [I], 'every metadata value that can be decoded, every piece index and piece content',
      'Tests use one consistent torrent.',
      ['src/torrent/info.rs', 'src/torrent/file.rs', 'src/torrent/writer.rs', 'src/actors/torrent.rs', 'src/actors/writer.rs'],
      [('consistency check', 'src/torrent/info.rs is_consistent'), ('checked piece access', 'src/torrent/info.rs get_piece')], ['decoding and use of metadata']),
    p('C10', 'Parsing a magnet link never panics and yields a 20-byte hash or none',
      'For every text given as a magnet link, parsing ends with a result or an error and never panics, and an info hash taken from it is always exactly 20 bytes long.',
      [I], 'every text, including ones with malformed, short, long or non-ASCII hash parts', 'Tests parse one well-formed link.',
      ['src/torrent/magnet.rs'], [('decoding of the hash part', 'src/torrent/magnet.rs')], ['result of parsing', 'the info hash handed to the trackers']),
    p('C11', 'Adding an invalid magnet link is answered with an error, never with success',
      'The endpoint that adds a torrent answers with success only after a torrent with a 20-byte info hash has actually been handed to the part that contacts the trackers, and it never panics; in all other cases the answer has an error status.',
      [I, F], 'every request text, and a tracker part that accepts or refuses the torrent', 'There is no test of the endpoint.',
      ['src/main.rs', 'src/torrent/magnet.rs'], [('answers of the endpoint', 'src/main.rs add_magnet')], ['HTTP status of the answer']),
    p('C12', 'Every message sent to a peer is framed with its exact length',
      'Each message written to a peer, other than the handshake, starts with a 4-byte big-endian length that is the number of bytes that follow in the same write, followed by the message id. This is decided for interested, request and extension-handshake messages; a metadata request, whose body is encoded by the bencode encoder, is decided up to that body.',
      [I, H], 'every index, offset and length in a request', 'Tests compare single serialised messages with fixed bytes.',
      ['src/messages/mod.rs', 'src/messages/request.rs', 'src/messages/interested.rs', 'src/peer/stream.rs'],
      [('serialisation', 'src/messages/mod.rs as_bytes'), ('write', 'src/peer/stream.rs write_stream')], ['writes to the peer socket']),
    p('C13', 'The handshake has the 68-byte layout with the info hash and a 20-byte peer id',
      'The handshake that opens every peer connection is 68 bytes: the byte 19, the text BitTorrent protocol, 8 reserved bytes with the extension-protocol bit set, the info hash of the torrent and a 20-byte peer id.',
      [I], 'every torrent and every generated peer id', 'A test compares one handshake; the info hash that a connection really passes is not covered.',
      ['src/messages/handshake.rs', 'src/messages/mod.rs', 'src/peer/manager.rs', 'src/common/generator.rs'],
      [('serialisation', 'src/messages/handshake.rs as_bytes')], ['first write to the peer socket']),
    p('C14', 'UDP tracker requests have the layout of the protocol',
      'A connect request to a UDP tracker is 16 bytes (protocol constant, action 0, transaction id); an announce request is 98 bytes with the connection id that the tracker returned, action 1, a transaction id, and at their offsets the torrent\'s info hash and a 20-byte peer id.',
      [I], 'every connection id, info hash and transaction id', 'There is no test of the UDP exchange.',
      ['src/tracker/udp_tracker.rs'], [('building of the packets', 'src/tracker/udp_tracker.rs')], ['datagrams sent']),
    p('C15', 'UDP tracker answers are used only if they answer the request that was sent',
      'A datagram from a UDP tracker is used only if it is long enough, has the action of the request and repeats its transaction id; connection id and peer list are taken from the bytes at their protocol offsets that were really received.',
      [I], 'every datagram, of every length', 'There is no test of the UDP exchange.',
      ['src/tracker/udp_tracker.rs'], [('check of the answer', 'src/tracker/udp_tracker.rs is_response_to')], ['connection id used in the announce', 'peers reported']),
    p('C16', 'Waiting for a tracker is bounded in time',
      'Every wait for a tracker (name lookup aside) has a time limit: a UDP tracker that never answers and an HTTP tracker that never answers cannot block the client for ever.',
      [F], 'trackers that answer late, partly or never', 'Tests use a mocked tracker that answers at once.',
      ['src/tracker/udp_tracker.rs', 'src/tracker/tcp_tracker.rs'], [('timeouts', 'src/tracker/udp_tracker.rs')], ['awaited network operations']),
    p('C17', 'Every operation on a peer socket is bounded in time',
      'Connecting to a peer, reading from it and writing to it always have a time limit set before the operation, so that a silent or slow peer cannot block a download worker for ever.',
      [F, H], 'peers that stop reading or writing at any point', 'Tests use an in-memory stream that never blocks.',
      ['src/peer/stream.rs', 'src/tracker/peer_endpoint.rs'], [('socket timeouts', 'src/peer/stream.rs')], ['blocking calls on sockets']),
    p('C18', 'A peer cannot make the client allocate memory without limit for one message',
      'The buffer reserved for an incoming message is bounded by a constant, whatever length the peer announces.',
      [I], 'every announced length', 'Tests announce lengths of a few bytes.',
      ['src/peer/stream.rs'], [('limit on the announced length', 'src/peer/stream.rs read_stream')], ['allocations while reading a message']),
    p('C19', 'Reading from a peer consumes whole messages or nothing',
      'Reading a message takes from the stream exactly the bytes of that message (length prefix included) or, when it is not complete yet, nothing at all, so that the next read always starts at a message boundary; a keep-alive is taken as a whole and reported as no message.',
      [I, F], 'every split of the incoming bytes into packets', 'The in-memory stream always has all bytes available.',
      ['src/peer/stream.rs'], [('peek before read', 'src/peer/stream.rs read_stream')], ['bytes taken from the socket', 'the message returned']),
    p('C20', 'Every piece taken for download is asked for, and returns on failure',
      'A piece index taken from the pool of missing pieces is always sent to a download worker; each request is answered by exactly one report, success or failure, for the same index and peer; and on failure exactly that index is put back.',
      [H, F], 'every outcome of a download', 'Tests exercise the pool alone, never the exchange between the parts.',
      ['src/actors/torrent.rs', 'src/actors/connection.rs', 'src/peer/piece_pool.rs'],
      [('handlers of the torrent and connection actors', 'src/actors/torrent.rs, src/actors/connection.rs')], ['messages between the actors', 'contents of the pool']),
    p('C21', 'Each piece-pool operation is one critical section',
      'Taking a piece from the pool and putting one back each read and change the pool within a single critical section, take from the front what was put at the back, and a new pool holds each index below the number of pieces exactly once in order.',
      [S], 'every interleaving of threads that share a pool', 'Tests use the pool from one thread.',
      ['src/peer/piece_pool.rs'], [('mutex around the queue', 'src/peer/piece_pool.rs')], ['pool operations']),
    p('C22', 'Block requests stay inside the piece and ask for at most 16 KiB',
      'Each block request names the piece being downloaded, starts at a multiple of 16384, asks for at least one and at most 16384 bytes and does not reach beyond the end of the piece; the last piece ends with the torrent.',
      [I], 'every piece length, piece index and total length', 'Tests check two fixed sizes.',
      ['src/peer/download/mod.rs', 'src/peer/download/block.rs', 'src/messages/request.rs'],
      [('computation of the block', 'src/peer/download/block.rs')], ['request messages written to the peer socket']),
    p('C23', 'A failing disk is reported and never half-ignored',
      'While a piece is written to disk, every failure to create, open or write a file leads to an error result and not to a panic or a success, and each write hands over all its bytes (a short write is continued or reported).',
      [F], 'every file system call failing or writing fewer bytes than asked', 'Tests write to a working temporary folder.',
      ['src/torrent/writer.rs', 'src/actors/writer.rs'], [('error propagation', 'src/torrent/writer.rs')], ['result of writing a piece']),
    p('C24', 'Each byte of a piece is written to its own file at its own offset',
      'A piece is cut along the file boundaries so that the parts follow each other without gap or overlap: each part goes to the file that owns its position in the torrent, at the position relative to the start of that file.',
      [I], 'every list of file lengths, piece length and piece index', 'Tests check a few layouts with constant numbers.',
      ['src/torrent/writer.rs'], [('offset arithmetic', 'src/torrent/writer.rs get_file_writers')], ['writes with their offsets']),
    p('C25', 'Bencode output is canonical',
      'A string is encoded with the number of its bytes as prefix, a number in decimal between i and e, and dictionary keys are written in sorted order, so that the encoding of a value is determined by the value.',
      [I], 'every value, including strings outside ASCII', 'Tests encode ASCII strings and dictionaries with few keys.',
      ['src/bencode/encode.rs', 'src/torrent/info.rs'], [('encoders', 'src/bencode/encode.rs')], ['encoded bytes']),
    p('C26', 'Peer state changes only by the message that means it',
      'The choke state, the availability map, the extension table and the handshake state of a peer are each changed only by an incoming message of the kind that carries them: choke and unchoke, bitfield, extension handshake, and handshake with the comparison of its info hash.',
      [I, H], 'every message, every previous state', 'Tests apply one message of each of three kinds.',
      ['src/peer/mod.rs'], [('dispatch on the message id', 'src/peer/mod.rs apply_message')], ['state of the peer after a message']),
    p('C27', 'Parsing reads exactly the fields that the wire format has at their offsets',
      'A received handshake is parsed with info hash and peer id at bytes 28 and 48; a piece block with index, offset and data at bytes 0, 4 and 8, numbers big-endian; extension and bitfield messages keep their bytes; and the id decides the kind of content.',
      [I], 'every message body', 'Tests parse one or two fixed messages.',
      ['src/messages/mod.rs', 'src/messages/handshake.rs', 'src/messages/request.rs', 'src/messages/bitfield.rs'], [('parsers', 'src/messages/mod.rs new_raw')], ['parsed content']),
    p('C28', 'A piece handed to storage is the blocks received, in the order of arrival',
      'The content that the download of a piece returns is the concatenation of the data of the block messages that arrived for it (as many as the piece has blocks), in the order in which they arrived; messages of other kinds (choke, unchoke, interested, have, bitfield) and blocks beyond those that were due contribute nothing.',
      [I, H], 'every sequence of messages', 'Tests push one or two messages.',
      ['src/peer/buffer.rs', 'src/peer/download/mod.rs'], [('buffer of messages', 'src/peer/buffer.rs')], ['assembled content']),
    p('C29', 'Peer addresses from trackers are parsed in network byte order',
      'A 6-byte compact peer entry is turned into the four address bytes in order and the port in big-endian order, entries are taken at consecutive multiples of 6 and shorter rests are ignored or refused, never misread.',
      [I], 'every peer list of every length', 'A test parses one entry.',
      ['src/tracker/peer_endpoint.rs', 'src/tracker/udp_tracker.rs', 'src/tracker/tcp_tracker.rs'], [('parser', 'src/tracker/peer_endpoint.rs from_bytes')], ['peer endpoints']),
    p('C30', 'The event loop is never blocked',
      'Code that runs on the shared event loop (message handlers of asynchronous actors, request handlers and their futures) makes no blocking call: no blocking socket, file or HTTP operation, sleep or thread join.',
      [S, F], 'every schedule; peers and trackers of any speed', 'Tests do not run the actors.',
      ['src/actors/torrent.rs', 'src/actors/tracker.rs', 'src/actors/trackers_interface.rs', 'src/tracker/mod.rs', 'src/main.rs'],
      [('blocking work moved to threads', 'src/tracker/mod.rs, src/tracker/tcp_tracker.rs')], ['calls made on the event loop']),
    p('C31', 'Actors never wait for each other',
      'No actor handler waits for the answer of another actor: messages are only posted, so that no cycle of actors can deadlock.',
      [S], 'every schedule of the actors', 'Tests do not run the actors.',
      ['src/actors/torrent.rs', 'src/actors/connection.rs', 'src/actors/writer.rs', 'src/actors/tracker.rs', 'src/actors/trackers_interface.rs'],
      [('posting of messages', 'do_send and try_send in src/actors')], ['message sends']),
    p('C32', 'The control interface listens on the loopback address only',
      'The HTTP interface that adds torrents is bound to a loopback address and to nothing else.',
      [C], 'every start of the program', 'No test starts the program.',
      ['src/main.rs'], [('bind', 'src/main.rs')], ['bound address']),
    p('C33', 'One failing tracker does not stop the others',
      'Each tracker of a torrent is contacted by an actor of its own, the failure of one (error, refusal or nonsense) neither ends the loop over the trackers nor the actor that contacts them, and every reachable peer that a tracker reports is passed on.',
      [F, I], 'every combination of failing trackers', 'Tests contact one mocked tracker.',
      ['src/actors/trackers_interface.rs', 'src/actors/tracker.rs', 'src/tracker/mod.rs'], [('fan-out', 'src/actors/trackers_interface.rs')], ['messages to tracker actors', 'peers passed on']),
    p('C34', 'A corrupt metadata cache is ignored',
      'Whatever the cache file contains (nothing, cut-off or foreign content), it never causes a panic, and metadata that cannot be read, is inconsistent or has another hash is fetched from a peer instead of being used.',
      [I, F], 'every content of the cache file, every failure to read or write it', 'Tests write and read back one value.',
      ['src/torrent/info.rs', 'src/actors/torrent.rs'], [('checks after loading', 'src/torrent/info.rs from_file, src/actors/torrent.rs collect_info')], ['metadata taken from the cache']),
    p('C35', 'Every downloaded piece is handed to storage and written as a whole',
      'A piece that was downloaded and verified is handed to the part that writes files exactly once, whatever else is going on, and success of writing it is answered only after every part of it that has bytes was written to its file.',
      [I, H, F], 'every piece, list of files, history of messages and failing file system call', 'Tests do not run the actors, and write one part at a time.',
      ['src/actors/torrent.rs', 'src/actors/writer.rs', 'src/torrent/writer.rs'], [('message to storage', 'src/actors/torrent.rs handler of downloaded pieces'), ('loop over the parts', 'src/torrent/writer.rs write')],
      ['message to the writer', 'writes to files']),
    p('C36', 'HTTP tracker requests carry the info hash and a 20-byte peer id',
      'A request to an HTTP tracker is a GET on the address of the tracker with the parameters info_hash, the percent-encoding of exactly the 20 bytes of the torrent info hash, and peer_id, an id of 20 bytes.',
      [I], 'every info hash and tracker address', 'The test mocks a tracker that does not look at the parameters.',
      ['src/tracker/tcp_tracker.rs', 'src/tracker/mod.rs'], [('construction of the address', 'src/tracker/tcp_tracker.rs call')], ['HTTP requests']),
    p('C37', 'No input can make the client access memory out of bounds or use invalid values',
      'Whatever data comes from peers, trackers, magnet links or files, the code of the client performs no operation with undefined behaviour: everything the compiler does not check itself (unchecked indexing, unwrapping or arithmetic, raw pointers, mutable statics) is used only where its precondition holds for every input.',
      [I], 'every input', 'Out-of-bounds reads usually go unnoticed in a test, and tests use well-formed data.',
      ['src/bencode/decode.rs', 'src/messages/mod.rs', 'src/peer/stream.rs', 'src/torrent/writer.rs', 'src/tracker/peer_endpoint.rs'], [('checked operations only', 'whole crate')], ['memory accesses']),
    p('C38', 'Every piece of the torrent is queued for download once',
      'When a torrent gets its metadata, the pool of missing pieces is filled with the index of every piece that the total length and the piece length give, a shorter last piece included, and with no other; another peer that is found later puts no piece into the pool again.',
      [I], 'every total length and piece length', 'No test runs the actor with metadata; a lost last piece goes unnoticed unless the length is no multiple of the piece length.',
      ['src/actors/torrent.rs', 'src/peer/piece_pool.rs', 'src/torrent/info.rs'], [('creation of the pool', 'src/actors/torrent.rs handle')], ['entries of the pool']),
    p('C40', 'Decoding what was encoded gives the same value back',
      'For every value that can be encoded, decoding its encoding gives an equal value, and for canonical input encoding what was decoded gives the same bytes.',
      [I], 'every value', 'Tests cover some values.',
      ['src/bencode/encode.rs', 'src/bencode/decode.rs'], [('codec', 'src/bencode')], ['encoded and decoded values']),
    p('C41', 'A torrent with live peers is eventually complete',
      'If peers that have all pieces stay reachable, every piece of a torrent is eventually downloaded and written.',
      [S, H, F], 'every fair schedule', 'No test downloads a torrent.',
      ['src/actors/torrent.rs'], [('handlers', 'src/actors/torrent.rs')], ['files on disk']),
    p('C42', 'Blocks answered out of order are put at their own place',
      'When a peer answers block requests in another order, or twice, the assembled piece has each block at its own offset.',
      [I, H], 'every order of answers', 'Tests push one block.',
      ['src/peer/buffer.rs'], [('assembly', 'src/peer/buffer.rs')], ['assembled content']),
    p('C43', 'Peer ids and transaction ids are unpredictable',
      'Peer ids and transaction ids are drawn from a good random source and do not repeat in practice.',
      [H], 'every run', 'Tests check the length only.',
      ['src/common/generator.rs', 'src/tracker/udp_tracker.rs'], [('generator', 'src/common/generator.rs')], ['generated ids']),
    p('C44', 'Work is spread over the peers that answer',
      'Peers that fail are chosen less often than peers that deliver, and no peer starves.',
      [H, S], 'every history of successes and failures', 'There is no test of peer selection.',
      ['src/actors/torrent.rs'], [('choice of a peer', 'src/actors/torrent.rs find_suitable_peer')], ['chosen endpoints']),
]

NA = {
    'C40': 'Round-trip equality relates two value-dependent loops over arbitrary data; no sound static argument in reach decides it. The structural clauses (byte-length prefix, sorted keys) are claimed as C25, totality of decoding as C07 and C08.',
    'C41': 'Liveness over schedules and peer behaviour; the structural part (no piece index is lost between the parts) is claimed as C20.',
    'C42': 'The code keeps arrival order by design and rejects the piece by its hash afterwards (C01); placing blocks by offset is not something the source does, and which orders occur is a runtime quantity.',
    'C43': 'Unpredictability is a statistical property of a library generator, not visible in the shape of this code.',
    'C44': 'Fairness of a randomised choice over histories is a statistical runtime property.',
}
