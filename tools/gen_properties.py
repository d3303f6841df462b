#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))
CORE = "nora_ssh_core/src/"
SSH = "nora_ssh/src/"

p("C01", "Every message is encoded as the SSH RFCs lay it out and decodes to itself",
  "For every SSH message and every session-channel request that the library's types can express, encoding it yields exactly the byte layout of RFC 4250-4254 / RFC 5656 (message number, field order, big-endian integers, length-prefixed strings, canonical positive mpints). Decoding those bytes succeeds and gives back the same kind of message with the same value in every field.",
  ["inputs"], "all message kinds, all field values (empty, long, non-ASCII, all-zero, high-bit, boundary lengths)",
  "The unit tests round-trip one literal value per kind, compare encode(decode(encode(x))) with encode(x) only (a field swapped in both directions passes), never look at field values or at the absolute bytes, and cover neither the key-exchange, service, disconnect, ignore, debug nor unimplemented messages.",
  [CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/channel/session.rs", CORE+"message/userauth.rs", CORE+"message/service.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs", CORE+"data.rs"],
  [("Message::serialize / Message::parse", CORE+"message/mod.rs"), ("SessionRequest::serialize / parse", CORE+"message/channel/session.rs"), ("make_string2, make_uint32, make_pos_mpint, parse_string", CORE+"data.rs")],
  ["bytes produced by the encoder", "fields of the decoded value"])

p("C02", "Decoding untrusted bytes never crashes and accepts only well-formed messages",
  "For every byte string, decoding it as an SSH message, as a session request or as a length-prefixed string returns a value or an error: it never panics and never yields bytes that are not in the input. It is accepted if and only if it is a complete well-formed encoding of a supported kind (nothing missing, nothing left over, required ASCII/UTF-8/name-list/reserved-zero constraints met), and each field of an accepted value is the corresponding part of the input.",
  ["inputs"], "all byte strings: random, truncated, extended, length-field-corrupted and bit-flipped variants of well-formed messages, all message numbers 0..255",
  "No unit test feeds a decoder anything but the encoder's own output (and four name lists).",
  [CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/channel/session.rs", CORE+"message/userauth.rs", CORE+"message/service.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs", CORE+"data.rs"],
  [("Message::parse and the per-kind parse functions", CORE+"message"), ("parse_string bounds check", CORE+"data.rs")],
  ["Ok/Err of the decoder and the fields of the value"])

p("C03", "Encoding respects the bounds of the caller's buffer exactly",
  "For every message, session request or public-key signature payload and every output buffer, encoding succeeds if and only if the buffer is at least as long as the encoding. On success the reported length is exact, the encoding occupies the front of the buffer and every byte behind it is left untouched; when the buffer is too small the encoder reports failure instead of panicking or truncating.",
  ["inputs"], "all messages x all buffer lengths from 0 to beyond the encoded length",
  "The unit tests always use a 2048-byte buffer for messages of a few dozen bytes.",
  [CORE+"message/mod.rs", CORE+"message/userauth.rs", CORE+"message/channel/session.rs", CORE+"data.rs"],
  [("make_* helpers return None when the buffer is short", CORE+"data.rs"), ("format_sign_data", CORE+"message/userauth.rs")],
  ["return value of the encoder and the whole buffer"])

p("C04", "Name lists, ASCII text and identifiers are validated and iterated exactly",
  "A byte string is accepted as a name list if and only if it is ASCII and has no empty element (the empty list is allowed); iterating it yields exactly the comma-separated names in order, and converting it back gives the original bytes. A byte string is accepted as ASCII text if and only if every byte is below 128, and as an identification string if and only if it is at most 253 bytes long, each keeping its bytes unchanged.",
  ["inputs"], "all byte strings, biased to commas, empty elements, non-ASCII bytes and boundary lengths",
  "Five literal lists are tested.",
  [CORE+"data.rs", CORE+"identifier.rs"],
  [("NameList::try_from, NameListIter", CORE+"data.rs"), ("AsciiStr::try_from", CORE+"data.rs"), ("Identifier::new", CORE+"identifier.rs")],
  ["Ok/Err and iterated names"])

p("C05", "Binary packets are framed as RFC 4253 section 6 requires and unwrap unchanged",
  "For every payload, cipher block size and padding mode, wrapping produces a packet whose length fields are consistent, whose padded part is a multiple of the block size, whose padding is between 4 and 255 bytes and taken from the supplied random generator; unwrapping gives back exactly the payload. A raw packet held completely in a buffer is accepted for unwrapping if and only if its length is aligned and its padding fits inside it, and all views of it (payload, raw bytes, lengths) agree.",
  ["inputs", "configurations"], "payload lengths 0..35000, four block sizes, both padding modes; arbitrary raw length/padding fields",
  "There is no test of packet framing at all.",
  [CORE+"packet.rs"],
  [("Packet::wrap", CORE+"packet.rs"), ("Packet::wrap_raw", CORE+"packet.rs")],
  ["raw bytes and accessors of a packet"])

p("C06", "Packet encryption is chacha20-poly1305@openssh.com, byte for byte, and inverts",
  "For every key material, direction, starting sequence number and sequence of packets, the sender's ciphertext is exactly what OpenSSH's chacha20-poly1305@openssh.com specification prescribes for that sequence number. A receiver started from the same key material, direction and sequence number recovers every packet's length and content unchanged, in order, for any number of packets.",
  ["inputs", "histories"], "all secrets/hashes, both directions, sequence numbers up to 2^32-1 including byte boundaries, packet sequences of any lengths",
  "There is no test of the cipher.",
  [CORE+"cipher/chacha20poly1305.rs", CORE+"key_exchange.rs"],
  [("Cipher::encrypt / decrypt_length / decrypt_data", CORE+"cipher/chacha20poly1305.rs"), ("per-packet counter", CORE+"cipher/chacha20poly1305.rs")],
  ["ciphertext bytes, decrypted bytes"])

p("C07", "Forged, altered, replayed, reordered or misdirected packets are never accepted",
  "For every authentic packet sequence, the receiving cipher rejects anything that is not exactly the next authentic packet for its direction: any changed bit (length, body or tag), any truncation or extension, any replayed, skipped or reordered packet, and any packet of the opposite direction or of another session. A rejected packet is left undecrypted in the caller's buffer and does not change the receiver, so the authentic next packet is still accepted afterwards.",
  ["inputs", "histories", "fault_sequences"], "all packet sequences x all tampering operations, every byte position of small packets enumerated",
  "There is no test of the cipher; absence of acceptance over all tamperings cannot be sampled by example.",
  [CORE+"cipher/chacha20poly1305.rs"],
  [("authenticate before decrypt", CORE+"cipher/chacha20poly1305.rs"), ("counter only advances on success", CORE+"cipher/chacha20poly1305.rs")],
  ["Result of decryption, caller's buffer, acceptance of the following packet"])

p("C08", "The exchange hash binds every handshake input as RFC 8731/5656 prescribes",
  "For all identification strings, key-exchange-init payloads, host keys, ephemeral public keys and shared secrets, the exchange hash is the digest of exactly the RFC-prescribed concatenation: length-prefixed strings in the order client id, server id, client init, server init, host key blob, client key, server key, and the shared secret as canonical positive mpint. Changing any one of these inputs, or moving bytes between adjacent ones, changes the hash.",
  ["inputs"], "all inputs, including secrets with leading zero bytes or the top bit set, empty and long strings",
  "There is no test of the exchange hash.",
  [CORE+"message/key_exchange/ecdh.rs", CORE+"data.rs"],
  [("KeyExchangeDigest type-state chain", CORE+"message/key_exchange/ecdh.rs"), ("make_pos_mpint", CORE+"data.rs")],
  ["digest value"])

p("C09", "Session keys are derived exactly as RFC 4253 section 7.2 prescribes",
  "For every shared secret and exchange hash, the initial IV, encryption key and integrity key of each direction are the RFC 4253 section 7.2 outputs for letters A to F, of whatever length is requested (one or more 32-byte blocks), with the secret in canonical mpint form. The six outputs are pairwise different and a longer request extends a shorter one.",
  ["inputs"], "all secrets (leading zeros, top bit, all zero), all hashes, both directions, three key kinds, output lengths 1..49 blocks (300 in fixed cases)",
  "There is no test of the key derivation.",
  [CORE+"key_exchange.rs", CORE+"data.rs"],
  [("KeyMaterial::gen, digest_k1, digest_kn", CORE+"key_exchange.rs")],
  ["derived bytes"])

p("C10", "Every conforming client completes the key exchange with an authenticated server",
  "A client that offers at least one supported algorithm in each required list, in any position and among any other names, with any legal identification string, any compatible first-packet guess and any fragmentation of the byte stream, completes the key exchange. The server's reply carries its configured host key and a signature by that key over the RFC exchange hash of exactly what was exchanged, and from then on both directions decrypt under the keys derived from that exchange with the packet numbering both sides counted.",
  ["inputs", "schedules", "histories"], "all identification strings, KEXINIT contents (order and extra algorithms, cookies, guess flag right or wrong), ephemeral keys, read/write fragmentations",
  "There is no test of nora_ssh at all.",
  [SSH+"host.rs", SSH+"identifier.rs", SSH+"packet.rs", SSH+"server.rs"],
  [("Host::handle_new_client", SSH+"host.rs"), ("KeyExchangeDigest, KeyMaterial", CORE+"key_exchange.rs")],
  ["bytes the server sends, verified by an independent client"])

p("C11", "A handshake that must not succeed never yields an authenticated channel",
  "If the client's version is not 2.0, its identification is over-long, one of the required algorithm lists (key exchange, host key, both encryption lists, both compression lists) has no supported name, its key-exchange messages are malformed, out of order or missing, or its ephemeral key has the wrong length or gives an all-zero shared secret, the server ends that connection. It then sends nothing further on it, never signals key activation for a rejected ephemeral key, and never consults the application's authentication.",
  ["inputs", "fault_sequences"], "all deviations from a valid handshake at every step",
  "There is no test of nora_ssh at all.",
  [SSH+"host.rs", SSH+"identifier.rs", SSH+"packet.rs"],
  [("handle_new_client error returns", SSH+"host.rs"), ("packet::parse length limits", SSH+"packet.rs")],
  ["server output, connection closure, handler calls"])

p("C12", "Every connection gets fresh random values from its own random generator",
  "In every set of connections to one server, each connection's key-exchange cookie, server ephemeral key, session identifier and derived keys differ from those of all other connections, even when the clients behave identically. All of them vary with the random generator supplied for that connection and none is a constant of the program.",
  ["histories", "inputs"], "all sets of connections, including byte-identical clients",
  "There is no test of nora_ssh at all.",
  [SSH+"host.rs", SSH+"server.rs"],
  [("from_entropy per connection", SSH+"server.rs"), ("EphemeralSecret::new(rng), cookie from rng", SSH+"host.rs")],
  ["server KEXINIT cookie, ephemeral key, session identifier as computed by the client"])

p("C13", "No client behaviour can crash the server or disturb another client",
  "Whatever bytes, messages or disconnections any set of clients produces before the handshake, during authentication or inside a session, and however often the application refuses a request or its program streams fail, the server keeps running and never panics. Every other, well-behaved client connected at the same time or later is served correctly; at most the misbehaving client's own connection ends.",
  ["inputs", "histories", "fault_sequences", "schedules"], "arbitrary hostile byte streams and message histories at every protocol stage, interleaved with well-behaved clients; injected I/O errors and application refusals",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs", SSH+"host.rs", SSH+"packet.rs", SSH+"identifier.rs", SSH+"sync.rs", SSH+"arena.rs"],
  [("errors end only the connection's own future", SSH+"server.rs")],
  ["server future panics, transcript of the well-behaved client"])

p("C14", "Nothing is served before the application accepted the client's authentication",
  "The server tells a client that authentication succeeded if and only if the application accepted that very request, and it never opens a channel or starts a program for a client before that. Every refused or unsupported authentication request is answered with a failure that names the methods that can continue, after which the client may try again any number of times; a public-key probe never authenticates.",
  ["histories", "inputs"], "all sequences of authentication and other messages, all accept/refuse decisions of the application",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs"],
  [("authenticate_new_client loop", SSH+"server.rs")],
  ["replies per request, handler call log"])

p("C15", "The application judges exactly the credentials the client presented",
  "For every authentication request the application is asked once, in order, with exactly the user name, service name, method, password, algorithm, key and signature bytes that the client sent. For a signed public-key request the data offered for verification is exactly what RFC 4252 section 7 says the client signs, bound to this connection's session identifier, so a signature made for another session, user, service or key never verifies; a public-key probe is answered by echoing the same algorithm and key blob.",
  ["inputs", "histories"], "all user/service/password/key/signature byte strings and sizes, sequences of requests",
  "There is no test of nora_ssh at all; format_sign_data is untested.",
  [SSH+"server.rs", SSH+"auth.rs", CORE+"message/userauth.rs"],
  [("authenticate_new_client", SSH+"server.rs"), ("format_sign_data", CORE+"message/userauth.rs")],
  ["arguments of handler calls, PK_OK replies, real Ed25519 verification"])

p("C16", "Tampering with an established connection ends it without any effect",
  "In an established connection, if the encrypted byte stream is altered, truncated, replayed, reordered or spliced at any point, every request sent before that point takes effect exactly as sent, program input is a prefix of what was sent before it, and nothing from that point on has any effect: no request, input byte or authentication attempt derived from it reaches the application. The server stops serving that connection.",
  ["inputs", "fault_sequences", "histories"], "all session scripts x tampering kind x tampering position",
  "There is no test of nora_ssh at all.",
  [SSH+"host.rs", SSH+"server.rs", CORE+"cipher/chacha20poly1305.rs"],
  [("In::recv", SSH+"host.rs")],
  ["handler call log and program stdin versus the untampered prefix"])

p("C17", "A program's input is exactly what the client sent on its channel",
  "The bytes a program reads from its standard input are exactly the channel data the client sent on that channel after the program was started, complete, in order and without duplication, however slowly or in whatever portions the program accepts them, and without waiting inside an input object that buffers until it is flushed. After the client's end-of-file (and only then, or when the channel or connection ends) the input is closed, after all earlier data; input that a program refuses to take never affects other channels.",
  ["inputs", "histories", "schedules"], "all data sizes and splits, several channels, programs accepting 1..n bytes per write, blocked or closed input",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs"],
  [("channel data handling in Client::receive", SSH+"server.rs")],
  ["bytes written to and closing of the application's stdin object"])

p("C18", "A program's output reaches the client complete, in order, on the right stream",
  "Everything a program writes to its standard output arrives at the client as channel data, and everything it writes to standard error as extended data of type 1, on the channel number the client chose, complete, in order and without duplication or mixing between streams, channels or clients; nothing is left waiting in a transport that buffers until it is flushed. This holds however the output is portioned and however it interleaves with other traffic in either direction.",
  ["inputs", "histories", "schedules"], "all output sizes and portions, several channels and clients, all interleavings with incoming traffic",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs", SSH+"host.rs"],
  [("output forwarding in Client::start", SSH+"server.rs")],
  ["decrypted channel data at an independent client"])

p("C19", "Exit status, end-of-file and close arrive once each, in a usable order",
  "When a program has ended and its output streams have ended, the client receives on its channel the program's exit status exactly once and unchanged, end-of-file exactly once after the last output byte, and then exactly one close; nothing for that channel follows the close. A channel the client closes first is answered with exactly one close and nothing more, and its number is free for reuse without receiving anything from the old program.",
  ["histories", "schedules", "inputs"], "all orders of stdout end, stderr end, program exit, client eof and client close; all exit values",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs", SSH+"arena.rs"],
  [("end-of-program handling in Client::start", SSH+"server.rs")],
  ["order of messages per channel at an independent client"])

p("C20", "Channels are numbered uniquely and every request gets its own reply",
  "Every session channel opened is confirmed to the client's number with a server number that no other live channel of that connection has, and a request to open another channel type (without type-specific data) is refused; every later message for a channel acts on that channel only. Each channel request that wants a reply gets exactly one, to the right channel and in request order - success if and only if a program was started for it - and a request that wants none gets none; at most one program is started per channel, with exactly the command the client sent.",
  ["histories", "inputs"], "all histories of open/request/data/eof/close over many channels, arbitrary client channel numbers, supported and unsupported requests",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs", SSH+"arena.rs"],
  [("Arena::insert/remove", SSH+"arena.rs"), ("Client::receive request handling", SSH+"server.rs")],
  ["confirmations and replies at an independent client, handler spawn log"])

p("C21", "Channel flow control is honoured in both directions and never stalls a transfer",
  "The server never sends more channel or extended data than the window the client has granted nor a data message longer than the client's maximum packet size, and it resumes as soon as the client grants more. It lets the client send without end by granting new window as the program consumes input, never has more than its advertised window outstanding unconsumed, and can receive any data message up to the maximum packet size it advertised.",
  ["histories", "schedules", "inputs"], "all windows and maximum packet sizes chosen by the client including 0 and tiny, all adjust schedules, transfers of many windows in both directions",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs"],
  [("per-channel window accounting", SSH+"server.rs")],
  ["bytes outstanding per channel at an independent client, completion of the transfer"])

p("C22", "Behaviour does not depend on how bytes are fragmented or when I/O is ready",
  "For every session, splitting the incoming stream at any byte boundaries, delaying any part of it, letting the transport accept output in any portions, and letting programs produce output at any moment never loses, repeats or reorders anything: the server's output is always one well-formed sequence of consecutively numbered packets and per channel the conversation is the same as with whole-packet delivery. The server never stops making progress while there is input, output or program activity it could act on.",
  ["schedules", "inputs", "histories"], "all fragmentations, readiness patterns and future-polling orders of randomly generated sessions, including a partial packet in flight when output appears",
  "There is no test of nora_ssh at all, and this is about schedules a test does not control.",
  [SSH+"server.rs", SSH+"host.rs", SSH+"sync.rs"],
  [("receive is never abandoned half-way", SSH+"server.rs"), ("LocalMutex around the sending half", SSH+"sync.rs")],
  ["per-channel transcripts at an independent client under a controlled executor"])

p("C23", "The client's identification line is found and taken over exactly",
  "The server skips every line that does not start with SSH- (each ended by CR LF), then takes the first line that does; if it has protocol version 2.0 and at most 253 characters it is used without its CR LF, byte for byte, in the exchange hash. No byte before or after that line is lost or misread, and the server's own identification is sent first and ended by CR LF.",
  ["inputs", "schedules"], "all preceding lines (including empty ones and near-misses of SSH-), all identification strings incl. CR inside and boundary lengths, all fragmentations",
  "There is no test of nora_ssh at all.",
  [SSH+"identifier.rs", CORE+"identifier.rs"],
  [("identifier::parse state machine", SSH+"identifier.rs")],
  ["signature over the exchange hash as verified by an independent client"])

p("C24", "scp receives files byte for byte and acknowledges each protocol step",
  "For every sequence of files sent with the documented protocol, the receiving scp writes each file with exactly the announced content, under the announced name (including names with spaces) in the target directory, or under the given path in single-file mode (one file, then end of input), and sends exactly one zero byte when ready, one per header and one per file.",
  ["inputs", "histories", "schedules"], "all file counts, names, sizes (0, buffer boundaries, large), contents and input fragmentations, both target modes",
  "nora_scp has no tests.",
  ["nora_scp/src/main.rs"],
  [("receive, read_header, transfer_file", "nora_scp/src/main.rs")],
  ["files in a scratch directory, acknowledgement bytes"])

p("C25", "A sender cannot make scp write outside the target directory",
  "In directory mode, whatever file names the sending side announces (absolute, with parent components, with separators, empty, dot names), the receiving scp creates or changes nothing outside the target directory (which itself contains no symbolic links) and nothing in a subdirectory of it. A name it refuses ends the transfer with an error instead of being rewritten.",
  ["inputs"], "all announced names and mixes of good and bad names",
  "nora_scp has no tests.",
  ["nora_scp/src/main.rs"],
  [("file name check before File::create", "nora_scp/src/main.rs")],
  ["the whole scratch tree before and after, exit status"])

p("C26", "scp sends files so that any conforming receiver reproduces them",
  "For all files, the sending scp waits for the receiver's readiness, announces each file with its real size and base name, waits for the acknowledgement, sends exactly that many content bytes followed by a zero byte, waits again, and ends after the last file. A name that cannot be put in a header (not UTF-8, or with a line break) is either announced exactly or refused with a failure. Connected to the receiving scp it reproduces every file byte for byte.",
  ["inputs", "histories", "schedules"], "all file lists, sizes, contents, names and acknowledgement timings",
  "nora_scp has no tests.",
  ["nora_scp/src/main.rs"],
  [("send", "nora_scp/src/main.rs")],
  ["bytes on stdout, received files"])

p("C27", "scp never reports success for a transfer that failed",
  "If the transfer cannot be completed as announced - malformed or unsupported header (wrong letter, missing field, non-decimal size, cut off), truncated content, missing final zero byte, refused or missing acknowledgement, missing or unreadable file, invalid arguments - scp ends with a non-zero exit status, an error message and no crash, and it does not acknowledge the failed file. It exits with status zero only if every file was transferred.",
  ["inputs", "fault_sequences"], "all protocol corruptions and truncation points of valid transfers in both directions, arbitrary byte streams",
  "nora_scp has no tests.",
  ["nora_scp/src/main.rs"],
  [("error propagation to main", "nora_scp/src/main.rs")],
  ["exit status, acknowledgements sent"])

p("C28", "The example daemon runs commands faithfully over a real connection",
  "For every command, an authenticated client that executes it over the daemon gets exactly the command's standard output and standard error, each on its own stream, and its exit status (non-zero if it was killed by a signal), with its standard input fed from the client. Only a valid Ed25519 signature for this session authenticates.",
  ["inputs", "histories", "schedules"], "all commands, arguments, input/output sizes, exit values, signals; concurrent clients over loopback TCP",
  "nora_sshd has no tests.",
  ["nora_sshd/src/main.rs", SSH+"server.rs"],
  [("Handlers::spawn, Handlers::authenticate", "nora_sshd/src/main.rs")],
  ["an independent client over TCP"])

p("C29", "The example daemon survives every client",
  "No authentication attempt (any method, user name, key or signature) and no command request (missing program, empty command, any bytes) makes the daemon exit or stop serving: the failing request is refused or reported as failed and later clients are served normally. Any number of clients and commands one after another leaves neither files nor processes in use, and the daemon rests when it has no clients.",
  ["inputs", "histories", "fault_sequences"], "all hostile or unlucky requests before and after authentication, followed by a normal client",
  "nora_sshd has no tests.",
  ["nora_sshd/src/main.rs", SSH+"server.rs"],
  [("Handlers return errors instead of panicking", "nora_sshd/src/main.rs")],
  ["daemon process liveness, a following normal session"])

p("C30", "No client or program, however busy, keeps the server from serving the others",
  "While one client sends without pause (before or during the handshake, during authentication, in a session or on a channel) or its programs produce output or take input without pause, every other client that has sent something, every client waiting to be accepted and every other program that has output is attended to after a bounded amount of work for the others. A server with nothing to do rests: it does not keep waking itself, whatever its clients did before.",
  ["inputs", "histories", "schedules"], "all kinds of endless traffic at every protocol stage, several busy clients and programs next to each other and to good ones, all orders in which things become ready",
  "There is no test of nora_ssh at all; starvation needs thousands of steps and streams that are always ready.",
  [SSH+"server.rs", SSH+"host.rs", SSH+"identifier.rs", SSH+"packet.rs"],
  [("accept loop, Client::receive loop and output forwarding in one future", SSH+"server.rs"), ("identification and packet reading loops", SSH+"identifier.rs")],
  ["number of reads, writes and accepts elsewhere while a party is ready; polls of a server at rest"])

p("C31", "An ended connection or program leaves nothing behind",
  "When a connection ends, whichever side ended it and at whatever stage (close, reset, disconnect message, protocol error, refused handshake), the server lets go of both halves of its transport, of the application's user object for it and of the streams and waits of all its programs; a connection whose client closed or reset it, or sent a disconnect message, does end, and one that goes on keeps its transport and user. A program that has ended and whose channel both sides have closed is let go of while the connection goes on, and a server that is dropped leaves none of the memory it allocated.",
  ["histories", "schedules", "fault_sequences"], "all ways and moments in which connections, channels and programs end, in all interleavings with other clients",
  "There is no test of nora_ssh at all.",
  [SSH+"server.rs", SSH+"host.rs", SSH+"sync.rs", SSH+"arena.rs"],
  [("per-connection future owns everything of it", SSH+"server.rs"), ("Arena::remove", SSH+"arena.rs")],
  ["drops of the application's objects, the process' allocator"])

p("C32", "The server's memory is bounded by what is open, not by what has happened",
  "What the server keeps in memory depends on the connections and channels that are open and on the data within their windows, not on how much has already happened: any number of messages that are answered or ignored, refused requests, channels opened and closed, programs run to their end, bytes transferred in either direction, or clients that came and went leaves the peak as it was. This includes clients that do not read what the server sends to them.",
  ["inputs", "histories"], "all kinds of endless traffic at every protocol stage, with clients that read or do not; sets of connections that came and went",
  "There is no test of nora_ssh at all; growth shows only over thousands of messages.",
  [SSH+"server.rs", SSH+"host.rs", SSH+"sync.rs", SSH+"arena.rs"],
  [("queues of channel data and replies", SSH+"server.rs"), ("Arena reuse of slots", SSH+"arena.rs")],
  ["the process' allocator: peak for few and for many times the same traffic"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
