"""Generates properties.jsonl and MANIFEST.json (run by hand after editing; both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, tech, note, level="exploration", observe=None, state=None):
    a = dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why, anchors=a), tech, note, level))


SIMNOTE = ("Searches generated cases only. The real, unmodified objects run; the operating system under them is a virtual kernel "
           "(partial reads/writes, spurious readiness, errors, clock) whose faithfulness to POSIX is trusted, with ASan/UBSan on throughout. ")

prop("C01", "Bytes come out unchanged, in order, and complete after a clean end",
     "Over any connection through a pair of correctly keyed ends, the bytes delivered at one side are always a prefix of the bytes sent at the other, in both directions independently. "
     "When a sender ends its stream and nothing fails, every byte it sent is delivered, followed by end-of-stream, while the opposite direction keeps working.",
     "inputs schedules configurations", "every byte sequence in each direction, every split of reads and writes, every interleaving of the two directions and half-closes, both roles, with and without forward secrecy",
     "The scenario tests push one file through on an unloaded loopback, where reads and writes are rarely partial and half-close order is fixed.",
     "lib/proto/proto_pipe.c lib/proto/proto_conn.c lib/proto/proto_crypt.c libcperciva/network/network_read.c libcperciva/network/network_write.c libcperciva/netbuf/netbuf_read.c spiped/dispatch.c spipe/pushbits.c",
     [("per-direction pipe: read, transform, write, then shutdown(SHUT_WR) on EOF", "lib/proto/proto_pipe.c"), ("connection ends only after both directions ended", "lib/proto/proto_conn.c")],
     "stateful PBT: two real ends over a virtual network with scheduled partial I/O, model = per-direction byte queues; plus generated exchanges through real spiped processes",
     SIMNOTE + "A second target drives the real binaries over loopback and UNIX sockets.")

prop("C02", "Packets on the wire have exactly the documented format",
     "After the handshake every byte sent towards a peer belongs to a 1060-byte packet: zero-padded payload and big-endian length in 1..1024 encrypted with AES-256-CTR under the direction's key and packet number, then HMAC-SHA256 over ciphertext and packet number, numbered 0,1,2,... with no gap or repeat; "
     "any packet stream built independently to that description is accepted and yields its payload.",
     "inputs histories configurations", "every payload split, every packet count, both directions and roles, plus packet numbers up to 2^64-2",
     "The tests only check that the program understands itself, so a symmetric deviation from the documented format passes.",
     "lib/proto/proto_crypt.c lib/proto/proto_crypt.h lib/proto/proto_pipe.c spiped/README DESIGN.md",
     [("encrypt/MAC one packet", "lib/proto/proto_crypt.c"), ("per-direction packet counter", "lib/proto/proto_crypt.c")],
     "differential PBT against an independent Python implementation of the documented protocol (hashlib/OpenSSL EVP)",
     SIMNOTE + "The reference is written from DESIGN.md, not from the code.")

prop("C03", "Altered, forged, replayed, reordered or spliced packets are never delivered",
     "If the packets reaching an end differ from those its peer sent (any bit changed, or a packet forged, dropped, repeated, moved, taken from the other direction or another connection), no byte of the first wrong packet or anything after it is ever delivered; "
     "the bytes delivered are the payload of the authentic packets before it (or a beginning of that, where they arrived together), and the connection is dropped.",
     "inputs histories schedules", "every attack history on the ciphertext of a connection, every position and bit, in both directions, under every fragmentation",
     "No test modifies ciphertext in flight.",
     "lib/proto/proto_crypt.c lib/proto/proto_pipe.c lib/proto/proto_conn.c libcperciva/crypto/crypto_verify_bytes.c",
     [("verify MAC and length before decrypting", "lib/proto/proto_crypt.c"), ("error in either pipe drops the connection", "lib/proto/proto_conn.c")],
     "stateful PBT: generated attack scripts (bit flips, replay, swap, truncate, splice, cross-direction, MAC/length variants) against a prefix oracle",
     SIMNOTE + "All 8 bits of every sampled byte position are enumerated in the 'bits' target.")

prop("C04", "The handshake follows the documented protocol for every conforming peer",
     "With a peer which independently implements the documented handshake (nonces, derived MAC keys, Diffie-Hellman values, server sending its value only after verifying the client's), either role completes the handshake and derives the same packet keys, however the peer's bytes are fragmented or delayed within the time limit. "
     "Nonces and (with forward secrecy) private values are fresh random bytes for each connection.",
     "inputs schedules configurations", "every key, nonce and Diffie-Hellman value pair incl. extreme values, both roles, all forward-secrecy settings, every fragmentation",
     "The tests only talk to themselves, so a symmetric deviation in key derivation, ordering or byte order is invisible.",
     "lib/proto/proto_handshake.c lib/proto/proto_crypt.c libcperciva/crypto/crypto_dh.c libcperciva/util/entropy.c",
     [("handshake state machine", "lib/proto/proto_handshake.c"), ("key derivation", "lib/proto/proto_crypt.c")],
     "differential PBT against an independent Python peer", SIMNOTE)

prop("C05", "Without the shared key nothing gets through the handshake",
     "If the peer does not hold the same key, or any handshake byte it sends is altered, out of range, reflected or replayed from elsewhere, the handshake fails: no application byte is delivered or accepted, the connection to the other side is torn down, and a server reveals nothing beyond its own nonce before it has verified the client.",
     "inputs histories schedules", "every peer behaviour during the handshake (wrong key, each altered bit, out-of-range or reflected values, replays, truncation), both roles, plus man-in-the-middle edits between two real ends",
     "Tests use one wrong-key case at most, and check only that data does not arrive.",
     "lib/proto/proto_handshake.c lib/proto/proto_crypt.c libcperciva/crypto/crypto_dh.c libcperciva/crypto/crypto_verify_bytes.c",
     [("verify MAC over the Diffie-Hellman value, then range-check it", "lib/proto/proto_crypt.c"), ("handshake failure drops the connection", "lib/proto/proto_conn.c")],
     "PBT with fault generator on handshake messages; enumeration of every bit of every handshake byte; two-ended man-in-the-middle target", SIMNOTE)

prop("C06", "Forward secrecy is used unless declined, and enforced when required",
     "Forward secrecy is negotiated exactly as documented: an end asked not to use it sends the value 1, otherwise a fresh group element, and the session keys then depend on the shared Diffie-Hellman value. "
     "An end told to require forward secrecy refuses every peer which declines it, and every other combination of options interoperates.",
     "inputs configurations", "all combinations of options at both ends and both roles, and every value a peer may send in place of a group element",
     "The scenario tests cover one or two option combinations and do not look at what was sent.",
     "lib/proto/proto_handshake.c lib/proto/proto_crypt.c spiped/main.c spipe/main.c",
     [("nopfs and requirepfs handling", "lib/proto/proto_crypt.c"), ("-f and -g passed to the connection", "spiped/dispatch.c")],
     "PBT over the option matrix with both real ends, and with an independent peer as the other end", SIMNOTE)

prop("C07", "The key is the whole key file, and an unreadable key is refused",
     "The shared secret is a function of every byte of the key file (SHA256 over its exact contents, of whatever length and however reads are split) and of nothing else. "
     "A key file, or standard input, which cannot be opened or read to its end is an error, never a shorter or empty key.",
     "inputs fault_sequences", "every file content and length around buffer boundaries, every split of reads, read and open errors, files, pipes and standard input",
     "Tests use one 32-byte key file on a healthy disk.",
     "lib/proto/proto_crypt.c spiped/main.c spipe/main.c",
     [("hash the key file in blocks until EOF, check ferror", "lib/proto/proto_crypt.c")],
     "PBT: generated files and read-fault tapes against hashlib", SIMNOTE)

prop("C08", "SHA256, HMAC-SHA256 and PBKDF2-SHA256 are correct however they are fed",
     "For every message, key, salt, iteration count and output length, and every way of cutting the message into pieces, the results equal the standards' (FIPS 180-4, RFC 2104, RFC 8018), with and without the CPU's accelerated instructions, from any buffer alignment.",
     "inputs configurations", "all inputs and chunkings incl. lengths over 2^32 bits; portable, SSE2 and SHA-NI code paths",
     "Known-answer tests cover a few messages at fixed chunkings.",
     "libcperciva/alg/sha256.c libcperciva/alg/sha256_shani.c libcperciva/alg/sha256_sse2.c",
     [("streaming state with buffered partial block and bit count", "libcperciva/alg/sha256.c")],
     "differential PBT against hashlib/hmac/pbkdf2_hmac on three code paths", "Search, not proof; OpenSSL's implementation is the oracle. The ARM paths cannot run here.")

prop("C09", "AES and AES-CTR are correct for every key, nonce, position and chunking",
     "Every block encryption equals FIPS 197 for 128- and 256-bit keys, and counter-mode output equals the documented nonce-and-counter key stream at every position, for every cut of the stream into pieces, in place or not, with and without the CPU's AES instructions.",
     "inputs configurations", "all keys, nonces, stream positions and chunkings; portable and AES-NI code paths",
     "Known-answer tests cover a few vectors and chunkings.",
     "libcperciva/crypto/crypto_aes.c libcperciva/crypto/crypto_aes_aesni.c libcperciva/crypto/crypto_aesctr.c libcperciva/crypto/crypto_aesctr_aesni.c libcperciva/crypto/crypto_aesctr_shared.c",
     [("counter block generation and partial-block buffer", "libcperciva/crypto/crypto_aesctr_shared.c")],
     "differential PBT against OpenSSL EVP on two code paths", "Search, not proof; OpenSSL EVP is the oracle. The ARM paths cannot run here.")

prop("C10", "Diffie-Hellman arithmetic and constant-time comparison are correct",
     "Public and shared values equal modular exponentiation in the 2048-bit MODP group with fixed-length big-endian encoding (leading zeros kept), blinding never changes the result, and a value is accepted as in range exactly when it is below the modulus. "
     "The byte-string comparison reports equal exactly when every byte is equal.",
     "inputs", "all private values, peer values incl. extremes and values with leading zero bytes, all byte strings",
     "Tests exercise random exchanges which almost never meet a leading zero or a boundary value.",
     "libcperciva/crypto/crypto_dh.c libcperciva/crypto/crypto_dh_group14.c libcperciva/crypto/crypto_verify_bytes.c",
     [("blinded exponentiation and left-padding", "libcperciva/crypto/crypto_dh.c"), ("lexicographic range check", "libcperciva/crypto/crypto_dh.c")],
     "differential PBT against Python integers; enumeration of values near the modulus", "Search, not proof. Timing behaviour is not examined.")

prop("C11", "Random bytes come from a correctly seeded generator and failures are reported",
     "Random bytes are produced by HMAC_DRBG (SHA256) seeded with 48 bytes from the operating system and reseeded with 32 more after 256 requests, never repeating output, for any request size. "
     "If the operating system's source cannot be opened, fails or ends early while bytes are needed, the request fails instead of returning predictable bytes, and short reads are assembled correctly.",
     "inputs histories fault_sequences", "every sequence of request sizes, every pattern of short reads, errors and early ends of the random source",
     "Randomness is not tested at all; reseeding and source failures never happen in the tests.",
     "libcperciva/crypto/crypto_entropy.c libcperciva/util/entropy.c libcperciva/crypto/crypto_entropy_rdrand.c",
     [("HMAC_DRBG instantiate/reseed/generate", "libcperciva/crypto/crypto_entropy.c"), ("read loop on the OS source", "libcperciva/util/entropy.c")],
     "model-based PBT: Python HMAC_DRBG fed the same OS bytes, fault tapes on the OS source", "Exact comparison with CPU features hidden; with RDRAND only non-repetition and seeding amounts.")

prop("C12", "Immediate events run in priority order, once, and never after cancel",
     "Registered immediate events run before any network or timer event, in increasing priority order and in registration order within a priority, each exactly once; a cancelled event never runs, and events registered, cancelled or re-registered from inside callbacks follow the same rules. "
     "A callback's non-zero return stops processing and is returned; the remaining events stay registered.",
     "histories schedules", "every history of registrations, cancellations, callback returns, nested registrations, interrupts and mixed event kinds",
     "The event loop has no test of its own; the scenarios register events in a handful of patterns.",
     "libcperciva/events/events_immediate.c libcperciva/events/events.c",
     [("per-priority queues and least-priority index", "libcperciva/events/events_immediate.c"), ("order of event kinds", "libcperciva/events/events.c")],
     "stateful model-based PBT of the event loop: the model lists which callback must run next", SIMNOTE)

prop("C13", "Network events fire exactly when ready, once each, for the right direction",
     "A registered read (write) callback runs if and only if its descriptor is readable (writable), closed or in error while registered; each registration fires at most once and is consumed by firing; cancelling prevents it, also in the same round; a second registration of a pair fails, and cancelling an absent one fails, without disturbing others. No ready descriptor waits forever, whatever other descriptors do.",
     "histories schedules", "every history of registrations and cancellations (also from callbacks) over many descriptors with every readiness pattern, incl. error and hang-up, EINTR and poll failures",
     "Readiness orders, simultaneous readiness, descriptor reuse and cancellation from callbacks do not occur under a test's control.",
     "libcperciva/events/events_network.c libcperciva/events/events.c",
     [("socket records and pollfd table kept in step", "libcperciva/events/events_network.c"), ("fair mixing of timers and network", "libcperciva/events/events.c")],
     "stateful model-based PBT of the event loop over the virtual kernel", SIMNOTE)

prop("C14", "Timers never fire early, fire in deadline order, and are never lost",
     "A timer callback runs once, not before its timeout has passed on the monotonic clock, in order of deadlines, and without delay beyond other work once due; cancelled timers never run; resetting restarts the full timeout; the loop never sleeps past the earliest deadline or spins before it. Changes of wall-clock time have no effect.",
     "histories schedules", "every history of timer registrations, resets and cancellations, with clock steps between any two operations, oversleeping, and competing network and immediate events",
     "Timers in the tests fire on an idle machine with nothing else pending, and the wall clock is never stepped.",
     "libcperciva/events/events_timer.c libcperciva/events/events.c libcperciva/datastruct/timerqueue.c libcperciva/util/monoclock.c",
     [("timer queue and time-to-wait", "libcperciva/events/events_timer.c"), ("monotonic clock", "libcperciva/util/monoclock.c")],
     "stateful model-based PBT of the event loop with a virtual clock", SIMNOTE)

prop("C15", "The priority queues always yield the minimum and keep handles right",
     "After any sequence of insertions, deletions (of the minimum or by handle), key increases and decreases, the heap reports a least element, every element's latest announced record cookie identifies it, and nothing is lost or duplicated; the timer queue yields due timers in order and none before it is due. A failed allocation leaves the contents unchanged.",
     "histories fault_sequences", "every operation history, with equal keys, heaps created empty or from an array, with and without cookies, and allocation failures",
     "No test exercises the heap directly; a sift error shows only for particular shapes.",
     "libcperciva/datastruct/ptrheap.c libcperciva/datastruct/timerqueue.c",
     [("sift up / sift down", "libcperciva/datastruct/ptrheap.c"), ("timer queue on top of the heap", "libcperciva/datastruct/timerqueue.c")],
     "stateful model-based PBT against a multiset", "Search up to a few hundred operations; ASan on.")

prop("C16", "Arrays and memory pools keep their contents through growth and failures",
     "An elastic array holds exactly the records appended and not removed, in order, through any resizing, export and truncation; requests whose size overflows or whose allocation fails are refused without changing the contents. The pool never hands out a record which is still in use and always hands out usable memory.",
     "histories fault_sequences", "every operation history incl. sizes near SIZE_MAX and allocation failure at each step",
     "Only reached indirectly, always with small sizes and with memory available.",
     "libcperciva/datastruct/elasticarray.c libcperciva/datastruct/elasticarray.h libcperciva/datastruct/mpool.h",
     [("resize with overflow checks", "libcperciva/datastruct/elasticarray.c"), ("free-record stack", "libcperciva/datastruct/mpool.h")],
     "stateful model-based PBT against a byte-string model with injected allocation failures", "Search; ASan on.")

prop("C17", "Network reads and writes transfer exactly the requested bytes",
     "A read callback gets a byte count between the minimum and the buffer length with exactly the next bytes of the stream in the buffer, 0 at end of stream and -1 on error; a write callback gets the length when at least the minimum was written, in order and once, and otherwise the count written before the failure. Each callback runs once; cancelling prevents it; a peer's disappearance never raises SIGPIPE.",
     "inputs schedules histories", "every buffer length and minimum, every splitting of the stream, interleaving of both directions, cancellation and error point",
     "The tests see whole buffers delivered at once on loopback.",
     "libcperciva/network/network_read.c libcperciva/network/network_write.c",
     [("accumulate until the minimum", "libcperciva/network/network_read.c"), ("write loop with MSG_NOSIGNAL", "libcperciva/network/network_write.c")],
     "stateful model-based PBT over the virtual kernel", SIMNOTE)

prop("C18", "Buffered reading loses no bytes and waits exactly as long as needed",
     "After a wait for n bytes succeeds, at least n bytes are available and the available bytes are exactly the unconsumed part of the stream in order, for any sequence of waits, peeks, consumes, cancellations and buffer growths. End of stream and errors are reported as such and no byte which arrived before is lost.",
     "inputs schedules histories", "every sequence of wait lengths (below, at, above buffer size) and consumes with every splitting of arriving data",
     "Only the program's own packet sizes are ever used in the tests.",
     "libcperciva/netbuf/netbuf_read.c",
     [("compaction and growth of the buffer", "libcperciva/netbuf/netbuf_read.c")],
     "stateful model-based PBT over the virtual kernel", SIMNOTE)

prop("C19", "Connecting tries every address in order, within its time limit",
     "A connection attempt tries the given addresses in order, from the bind address if one is given, and delivers the first which connects, or -1 after all have failed; with a timeout each attempt is bounded by it. All sockets of failed or cancelled attempts are closed, and the callback runs once or, after cancel, not at all. "
     "Accepting delivers each arriving connection once and survives connections which vanish before being accepted. A socket set up for listening is bound to exactly the address given and never blocks; if it cannot be, nothing is left open.",
     "schedules fault_sequences", "every address list with every pattern of immediate and delayed success and failure, errors of socket, bind and connect, and cancellation points",
     "The tests connect to one address which answers at once.",
     "libcperciva/network/network_connect.c libcperciva/network/network_accept.c libcperciva/util/sock.c",
     [("try list with per-address timeout", "libcperciva/network/network_connect.c"), ("transient accept errors", "libcperciva/network/network_accept.c")],
     "stateful model-based PBT with a fault tape for every socket call", SIMNOTE)

prop("C20", "Every connection ends exactly once, on time, releasing everything it holds",
     "Each relayed connection ends by itself when both directions have ended, when connecting or the handshake fails or exceeds the configured time limit, or when a direction fails, and its owner is told exactly once, with the right reason; dropping it from outside does the same at once. Then both its sockets are closed, its memory is released, and no timer or callback of it remains.",
     "schedules fault_sequences", "every lifecycle: connect results, handshake progress, time limits, end-of-stream orders, resets, drops at every point, both roles and keep-alive settings",
     "Leaks and double reports appear only when endings coincide, which tests do not arrange.",
     "lib/proto/proto_conn.c lib/proto/proto_pipe.c lib/proto/proto_handshake.c",
     [("connection state machine", "lib/proto/proto_conn.c"), ("end-of-direction propagation", "lib/proto/proto_pipe.c")],
     "stateful model-based PBT over the virtual kernel with exact prediction of end time and reason; memory and descriptor accounting", SIMNOTE)

prop("C21", "The connection limit is never exceeded and waiting connections are served",
     "At no time does a daemon have more open connections than its -n limit (default 100, 0 meaning none). Connections beyond the limit wait and are served in order of arrival as soon as earlier ones end, whatever the reason they ended; the daemon never stops accepting while it has capacity.",
     "schedules histories", "every history of arrivals and endings (completed, failed, timed out, reset), transient accept errors",
     "Tests open one or a few connections which all end well.",
     "spiped/dispatch.c libcperciva/network/network_accept.c spiped/main.c",
     [("nconn accounting and accept pause/resume", "spiped/dispatch.c")],
     "stateful model-based PBT of the dispatcher over the virtual kernel; histories on real processes", SIMNOTE)

prop("C22", "Graceful shutdown finishes existing connections and accepts no more",
     "After SIGTERM a daemon accepts no further connections, existing connections keep working in both directions until their natural end, and the daemon exits with status 0 as soon as, and not before, none is left; without connections it exits promptly.",
     "schedules histories", "SIGTERM (or the shutdown request) at every point of every history of connections, arrivals after it, every way connections end",
     "The tests send SIGTERM only at one or two fixed points.",
     "spiped/dispatch.c lib/util/graceful_shutdown.c spiped/main.c",
     [("shutdown request and completion flag", "spiped/dispatch.c"), ("SIGTERM flag polled by a timer", "lib/util/graceful_shutdown.c")],
     "stateful model-based PBT of the dispatcher over the virtual kernel; SIGTERM histories on real processes", SIMNOTE)

prop("C23", "No peer can disturb the daemon or other connections",
     "Whatever bytes, timing, resets, stalls, floods, half-open or failing connections a peer produces on its own connection, the daemon keeps running, all other connections carry their data unchanged and are not dropped, and new connections are served.",
     "inputs schedules histories", "every history mixing well-behaved connections with misbehaving ones at every stage, both roles",
     "Tests contain almost no hostile traffic next to good traffic.",
     "spiped/dispatch.c lib/proto/proto_conn.c lib/proto/proto_handshake.c lib/proto/proto_pipe.c libcperciva/network/network_write.c",
     [("per-connection error containment", "lib/proto/proto_conn.c")],
     "stateful PBT of the dispatcher over the virtual kernel; real processes with hostile peers", SIMNOTE)

prop("C24", "Socket address strings mean exactly what the documentation says",
     "An address string denotes a UNIX socket (starts with '/'), [IPv4]:port, [IPv6]:port, or host:port; resolving gives exactly that address (all of a host's addresses, in the resolver's order, each as a stream socket), and anything else is refused with an error. "
     "A bracketed address without a port is accepted only where it is bound to. An address that does not fit is refused, never shortened, and printing an address and reading it back gives the same address.",
     "inputs", "every string: addresses in all their spellings, ports 0..65535 and beyond, hosts, missing parts, stray characters, UNIX paths up to and past the limit; every address object",
     "The tests use a dozen fixed address strings.",
     "libcperciva/util/sock.c libcperciva/util/sock_util.c spiped/README spipe/README",
     [("parsing and resolution", "libcperciva/util/sock.c"), ("printing and port completion", "libcperciva/util/sock_util.c")],
     "grammar-based PBT against Python's ipaddress and a reference parser, with a stand-in resolver; real binaries listening on generated addresses",
     "Searches generated strings only. The name resolver is a stand-in; numeric parsing is compared with Python's own ipaddress and socket modules.")

prop("C25", "Address objects copy, compare and serialize without loss",
     "A copy of a socket address, or of a list of them, equals and is independent of the original; two addresses compare equal exactly when family, type, length and name are equal; reading a serialized address back gives the same address, and any other serialized bytes are refused rather than misread.",
     "inputs", "every address of any family, type and length, pairs differing in one field, every truncation and mutation of the serialized form",
     "The tests serialize a few addresses and never damaged ones.",
     "libcperciva/util/sock_util.c",
     [("duplicate, compare, serialize", "libcperciva/util/sock_util.c")],
     "round-trip and metamorphic PBT with an independent model of the serialized form, under ASan",
     "Searches generated cases only.")

prop("C26", "Numbers are accepted exactly when written correctly and within bounds",
     "A text given where a number is expected is accepted exactly when the whole text is one number in the notation of C and its value lies within the stated bounds; then the value stored is that number. Otherwise it is refused with 'invalid' or 'out of range' as appropriate; it never wraps around, is cut to the size of its type, or silently changes sign.",
     "inputs", "every text, integer type (8 to 64 bits, signed and unsigned), base and bounds incl. the extremes of each type; floats incl. infinities, huge and tiny values",
     "The tests list fixed text/bounds pairs; type, sign and boundary combinations are unbounded.",
     "libcperciva/util/parsenum.h",
     [("type dispatch, bounds and error codes", "libcperciva/util/parsenum.h")],
     "differential PBT against exact arithmetic in Python (int, Fraction)",
     "Searches generated cases only. NaN as a text is left open (upstream's own tests accept it); the programs' refusal of NaN belongs to C27.")

prop("C27", "Command lines are accepted exactly when valid, and options do what they say",
     "Options may come in any order, packed or with attached arguments, up to '--' or the first other word. spiped and spipe refuse, with status 1 and a reason and before touching key or sockets, any line with an unknown, repeated, conflicting or missing option, an option without its argument, a malformed number, or extra words; every other line is accepted. "
     "Accepted options have the documented effect: -e/-d, -f, -g, -j, -o (0 meaning 5 s), -k (- meaning standard input), -v.",
     "inputs configurations", "every argument vector derived from valid ones by dropping, repeating, changing, packing and permuting; every combination of the options' effects seen by an independent peer",
     "The tests run a handful of fixed command lines.",
     "spiped/main.c spipe/main.c libcperciva/util/getopt.c libcperciva/util/getopt.h",
     [("option scanner", "libcperciva/util/getopt.c"), ("option checks and defaults", "spiped/main.c"), ("option checks and defaults", "spipe/main.c")],
     "grammar-based PBT of the scanner and of whole command lines against reference models; effects observed by an independent protocol peer on real processes",
     "Searches generated cases only. Lines which would leave a daemon behind (-D without -F) are not generated.")

prop("C28", "spipe relays its standard input and output and reports how it ended",
     "spipe sends all of its standard input to the target and writes everything received to standard output, unchanged and complete, whatever these are (pipe, file, socket) and however slow; one stream ending does not stop the other, and after both have ended it exits with status 0. "
     "If the connection or handshake fails, or the connection breaks, it ends promptly and unsuccessfully; SIGTERM ends it promptly.",
     "inputs schedules histories configurations", "every pair of streams, order and point of ending, kind of descriptor and pace of its other end, way a connection can fail with or without data in flight",
     "The tests pipe one file through with well-behaved endings; thread races at a failing connection are not exercised.",
     "spipe/main.c spipe/pushbits.c lib/util/graceful_shutdown.c lib/util/pthread_create_blocking_np.c",
     [("copying threads", "spipe/pushbits.c"), ("exit status and thread cancellation", "spipe/main.c")],
     "stateful PBT of the real program against an independent protocol peer with generated streams, descriptors, endings, stops and signals; repeated racing endings",
     "Searches generated cases only, under the schedules the kernel produces; the 'race' target repeats each racing ending hundreds of times.")

prop("C29", "The target name is re-resolved in the background and the newest answer used",
     "A daemon looks its target up again every -r seconds after the previous lookup ended (never with -R); each new connection tries exactly the addresses of the latest successful lookup, in order, or the initial ones; failed or slow lookups change nothing and delay nobody. "
     "A lookup thread does one lookup at a time (another request is refused with EALREADY), reports each accepted one exactly once with the addresses of its own name, and ends when told to, leaving nothing behind.",
     "schedules histories fault_sequences", "every history of name changes, lookup failures, slow lookups and arriving connections; every order of requests, completions and terminations of lookup threads",
     "The tests resolve fixed names once.",
     "spiped/dispatch.c lib/dnsthread/dnsthread.c",
     [("timer, lookup, replacing the address list", "spiped/dispatch.c"), ("thread states and completion message", "lib/dnsthread/dnsthread.c")],
     "stateful model-based PBT with a controllable stand-in resolver, the real threads, and virtual time", SIMNOTE)

prop("C30", "A successful start leaves a running daemon and its process ID on file",
     "Without -F, spiped's starting process exits with status 0 only once the daemon is running as leader of its own session and the pid file (-p, or the source address with .pid appended) holds exactly its process ID in decimal; without -D it then also listens. Any failure until then ends it with status 1, leaves no daemon and, unless -D is given, leaves an existing pid file alone if daemonizing had not begun. "
     "With -D, names which cannot be looked up yet are waited for in the background. With -F there is no other process and no pid file.",
     "configurations fault_sequences inputs", "every combination of mode, role, addresses, pid file and old content, with failures and delays at each step of starting, and names becoming known in any order",
     "The tests start daemons in one way, with nothing failing.",
     "spiped/main.c libcperciva/util/daemonize.c libcperciva/util/ipc_sync.c",
     [("fork, session, pid file, notifying the parent", "libcperciva/util/daemonize.c"), ("barrier between the processes", "libcperciva/util/ipc_sync.c"), ("order of starting", "spiped/main.c")],
     "PBT of the real program over generated configurations with injected failures and delays (interposed library calls), judged by the processes and files which result",
     "Searches generated cases, and every listed failure in every way of starting. Process crashes are injected at setsid and at opening the pid file.")

prop("C31", "With -u, connections are served under that user and group, or not at all",
     "-u user, :group or user:group is obeyed completely before any connection is accepted: real, effective and saved IDs are those named (a name known to the system first, otherwise a decimal number), and supplementary groups are given up, with only a warning where that is not permitted. "
     "If a name is unknown or malformed or a step fails, spiped ends with status 1 without serving anybody; it never continues under other IDs.",
     "inputs configurations fault_sequences", "every user and group specification, starting IDs and groups, content of the user database, and failure of each step",
     "The tests cannot change IDs without root and never fail a system call.",
     "libcperciva/util/setuidgid.c libcperciva/util/setgroups_none.c spiped/main.c",
     [("names, groups, IDs", "libcperciva/util/setuidgid.c"), ("before accepting", "spiped/main.c")],
     "model-based PBT of the ID changes on a virtual kernel with injected failures, and of the real program started as root and as an unprivileged user",
     "Searches generated cases only. The real-program part does nothing (and says so in its evidence) where the sandbox does not let root change IDs.")

prop("C32", "Running out of memory or a failing call never does worse than a clean end",
     "When any single allocation, thread creation or system call fails, or all of them from some point on, spiped and spipe keep serving or end with a nonzero status (a deliberate abort in option parsing included): they never use or free memory twice, misuse a descriptor, spin, hang, or hand over bytes the peer did not send. A failure which does not end the program harms at most the connections it hit, which count as closed, and afterwards new connections are served; a fatal one still lets the program be shut down in order, with every descriptor closed. (Memory lost on the way out of a process which ends is not counted.) "
     "Where a failure ends the process, the exit status says so.",
     "fault_sequences inputs schedules", "every single point of failure of a plain session of both programs and the dispatcher, and generated histories with failures at any point, once or lasting",
     "The tests never make an allocation or a system call fail.",
     "lib/proto/proto_conn.c lib/dnsthread/dnsthread.c libcperciva/network/network_connect.c libcperciva/events/events.c spipe/main.c spiped/main.c spiped/dispatch.c",
     [("unwinding of each step", "lib/proto/proto_conn.c"), ("failure of a connection attempt", "libcperciva/network/network_connect.c"), ("error paths", "spiped/dispatch.c"), ("error paths", "spipe/main.c")],
     "fault-injection PBT: exhaustive single failures and generated histories on a virtual kernel (model-based) and on the real programs under AddressSanitizer",
     "Searches generated cases, and every single point of failure of one history per program and role. A failing call returns an error its manual page lists; close never fails.")

prop("C34", "A receiver which does not read holds back its sender; nothing piles up inside",
     "In each direction of each connection, spiped and spipe read only what they can pass on shortly: at any time the bytes read and not yet sent on (or, before the handshake is complete or the target is connected, read at all) are bounded by a constant of a few packets, and so is the memory a connection uses, however much its sender offers, however long its receiver waits, and however much has passed already. "
     "While one receiver waits, the other direction and other connections carry on and nothing is polled; once it reads again it gets every byte.",
     "histories inputs schedules", "every history of sending, stalled and partial reading in both directions and roles, any packet sizes, floods before and during the handshake",
     "The tests move small files to receivers which read at once.",
     "lib/proto/proto_pipe.c libcperciva/netbuf/netbuf_read.c libcperciva/network/network_write.c libcperciva/network/network_read.c spipe/pushbits.c",
     [("read, transform, write, in turns", "lib/proto/proto_pipe.c"), ("buffer reuse", "libcperciva/netbuf/netbuf_read.c"), ("copying threads", "spipe/pushbits.c")],
     "stateful PBT with byte and memory accounts on a virtual kernel against an independent peer; real processes with stalled receivers, judged by bytes accepted and process memory",
     SIMNOTE + " Thresholds (64 kB in flight, 256 kB of memory, 8 MB of process growth) are far above what the code needs.")

prop("C33", "Keys and intermediate secrets are erased when they are no longer needed",
     "The shared secret, expanded AES keys, AES-CTR streams and the numbers of a Diffie-Hellman computation (private, blinding and result) are overwritten before their memory is given back, however the connection or computation which used them ends. "
     "Final steps of SHA256 and HMAC leave their context all zero; SHA256, HMAC-SHA256, PBKDF2, the one-call AES-CTR function and the random generator leave on the stack no part (16 bytes or more) of keys, padded keys, seeds, internal state, keystream, message blocks or inner hashes. "
     "(Not claimed: packet MAC keys, handshake state, and what OpenSSL or the compiler copies for itself.)",
     "inputs histories configurations", "all keys, messages, passwords, chunkings and generator states, each CPU-specific implementation, every way a connection ends",
     "A test sees results, not what is left behind.",
     "lib/proto/proto_crypt.c libcperciva/alg/sha256.c libcperciva/crypto/crypto_aes.c libcperciva/crypto/crypto_aes_aesni.c libcperciva/crypto/crypto_aesctr.c libcperciva/crypto/crypto_entropy.c libcperciva/crypto/crypto_dh.c",
     [("clearing", "libcperciva/util/insecure_memzero.c"), ("wrappers which clean up", "libcperciva/alg/sha256.c"), ("freeing keys", "libcperciva/crypto/crypto_aes_aesni.c")],
     "PBT: values computed by a reference implementation are searched for in all memory given back (interposed allocator, BIGNUM release) and on the stack of an ordinary -O2 build",
     "Searches generated cases only; about the compiler and CPU at hand (SHA/AES instructions, SSE2 and portable code).")

prop("C35", "Messages, threads, processes and helper functions keep their contracts",
     "Every message is one whole line: the program's base name, the text, and (when there is one) the error's description, on standard error or with the chosen priority in the system log, where the text is cut at 4095 characters and never interpreted again; it leaves errno as promised, and messages of threads running at once are neither mixed nor lost. "
     "A thread creation which returns 0 has waited until the thread runs, with its argument, attributes and return value; one which fails returns the error and leaves nothing behind. A process which waits for another is released by the signal and not before, or told when the other has gone; a function run in a process of its own gets its cookie and its exit code is reported, -1 for a signal, without touching the parent's buffers. "
     "Writing goes on until every byte is written, through interruptions and short writes, or reports the error; formatted strings, array allocation, alignment, byte order and clocks give the exact result or a failure.",
     "inputs schedules faults", "every message text, length and target, every number of threads, delays and failing calls, every order of waiting, signalling and dying, every pattern of short and interrupted writes, every value and offset",
     "The tests start one thread in one way and look at no message.",
     "libcperciva/util/warnp.c lib/util/pthread_create_blocking_np.c libcperciva/util/ipc_sync.c libcperciva/util/fork_func.c libcperciva/util/noeintr.c libcperciva/util/asprintf.c libcperciva/util/monoclock.c libcperciva/util/imalloc.h libcperciva/util/align_ptr.h libcperciva/util/sysendian.h",
     [("warn(), warnx()", "libcperciva/util/warnp.c"), ("waiting until the thread runs", "lib/util/pthread_create_blocking_np.c"), ("noeintr_write()", "libcperciva/util/noeintr.c")],
     "PBT of each function against a model of its contract, with system calls scripted (short, interrupted, failing), delays injected into threads, and real processes",
     "Failures of the synchronisation calls inside the new thread itself are not injected (the code would wait for a signal which cannot come; no such failure is possible on a correctly initialised mutex).")

prop("C36", "Special CPU instructions are used only where they work, and change no result",
     "AES, SHA256 and random-number instructions are used only if the CPU reports every feature they need (by the levels it really has), and only after they have been seen to compute the right values for each kind of key; otherwise the portable code is used. Those which exist and work are used, and nothing is said about them. Whatever the CPU reports and however its instructions go wrong from the start, hashes, MACs, encryption and random bytes are the same as without them - or, if no implementation of AES gives the right values, the program stops. "
     "The hardware's random numbers are only ever added to the operating system's, and not when the instruction fails.",
     "inputs faults", "every CPUID answer (levels, feature bits, garbage elsewhere), every combination of routines which compute wrong values or fail, every sequence of uses",
     "The tests run on one CPU, which works.",
     "libcperciva/cpusupport/cpusupport.h libcperciva/cpusupport/cpusupport_x86_aesni.c libcperciva/cpusupport/cpusupport_x86_rdrand.c libcperciva/cpusupport/cpusupport_x86_shani.c libcperciva/cpusupport/cpusupport_x86_sse2.c libcperciva/cpusupport/cpusupport_x86_ssse3.c libcperciva/alg/sha256.c libcperciva/crypto/crypto_aes.c libcperciva/crypto/crypto_aesctr.c libcperciva/crypto/crypto_entropy.c",
     [("asking the CPU", "libcperciva/cpusupport/cpusupport_x86_shani.c"), ("self-test, choice", "libcperciva/crypto/crypto_aes.c"), ("hwtest()", "libcperciva/alg/sha256.c"), ("update_from_rdrand()", "libcperciva/crypto/crypto_entropy.c")],
     "PBT and enumeration of all feature sets on a made-up CPU: CPUID answers come from the case, accelerated routines are counted and made wrong at link time; results against the reference implementation",
     "The x86 variants only: the ARM code cannot be run here. A routine which starts going wrong after its self-test is outside what the code promises.")

prop("C37", "Threads share no data without synchronization, and shutting down is no exception",
     "Whatever the scheduling: the threads which look up names, the threads with which spipe copies its input and output, and the event loop never touch the same data at the same time without a lock or another ordering between them; this includes starting a thread, killing one while it is idle or busy, error messages from several threads, the ends of connections, SIGTERM and the exit of the program. Every lookup asked for is answered exactly once with its own result.",
     "schedules histories", "sequences of thread and lookup operations with random delays at every synchronization point; transfers, endings and periodic lookups of the real programs",
     "The tests run each schedule which happens; a race rarely shows in what a test looks at.",
     "lib/dnsthread/dnsthread.c lib/util/pthread_create_blocking_np.c spipe/pushbits.c spipe/main.c spiped/dispatch.c libcperciva/util/sock.c libcperciva/util/warnp.c",
     [("workthread(), callback_resolveone(), dnsthread_kill()", "lib/dnsthread/dnsthread.c"), ("wrapped_thread()", "lib/util/pthread_create_blocking_np.c"), ("workthread()", "spipe/pushbits.c"), ("warnp_atexit()", "libcperciva/util/warnp.c")],
     "stateful PBT: generated histories run on builds with ThreadSanitizer, whose happens-before relation is the oracle (a race is found whether or not it did damage); answers counted",
     "ThreadSanitizer sees unordered accesses of the executions generated, not of those which did not happen; OpenSSL and libc are not instrumented.")

prop("C38", "What is done with secrets takes a time which does not depend on them",
     "Wherever two strings first differ, comparing MACs takes the same course; so do hashing and authenticating, deriving keys, and accepting or refusing handshake messages and packets: no branch taken and no address used depends on keys, secret data or expected MACs, except through the verdict itself. Exponents given to an exponentiation whose time depends on them are freshly blinded each time and of the same length for every private value.",
     "inputs", "keys, data, lengths, chunkings, every position of a difference; handshakes with right and wrong keys and options; packets changed anywhere; all kinds of private values",
     "The tests see results, not the time they took.",
     "libcperciva/crypto/crypto_verify_bytes.c libcperciva/crypto/crypto_dh.c libcperciva/alg/sha256.c lib/proto/proto_crypt.c lib/proto/proto_handshake.c libcperciva/crypto/crypto_aesctr.c libcperciva/crypto/crypto_entropy.c",
     [("crypto_verify_bytes()", "libcperciva/crypto/crypto_verify_bytes.c"), ("blinded_modexp()", "libcperciva/crypto/crypto_dh.c"), ("proto_crypt_dec(), proto_crypt_dh_validate()", "lib/proto/proto_crypt.c")],
     "PBT under MemorySanitizer: secrets are marked uninitialized, generated operations run, and any branch, address or memcmp which depends on them is reported; exponents observed at the call of OpenSSL",
     "The portable code is what is checked (MemorySanitizer does not follow vector instructions); OpenSSL's own AES and arithmetic are outside, as is what the compiler makes of the code.")

# MORE


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, tech, note, level in P:
        if p["id"] in NA:
            na.append(dict(property=p["id"], reason=NA[p["id"]]))
        elif not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            na.append(dict(property=p["id"], reason="check not built yet"))
        else:
            checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=tech, level=level, level_note=note))
    m = dict(version=1, setup_cmd="python3 vf/build.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: instrumentation is done at link time (--wrap) on objects built from /repo's sources. Replay: ./check ID --replay FILE.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
