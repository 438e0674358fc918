#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HOOK = "cfg(quic_sea_verif) re-exports and accessors"

p("C01", "Variable-length integers encode and decode exactly (RFC 9000 s16)",
  "Every value up to 2^62-1 is encoded in the shortest of the 1/2/4/8-byte forms and every larger value is refused. Every decoder (from a byte stream, from a byte stream while also returning the raw bytes, and from a slice) reads back exactly the encoded value from the shortest or any longer legal form, consumes exactly the bytes of that form, and leaves what follows untouched. An encoding that is cut short, or a stream that reports an error within it, yields an error.",
  ["inputs"], "all 2^64 values; every legal width; every prefix; any trailing bytes; an error at any position",
  "one unit test encodes the two values 0 and 2000; no test decodes a varint directly, no boundary (63/64, 16383/16384, 2^30, 2^62) is sampled",
  ["src/utils.rs"], [("length-class selection and prefix bits", "utils.rs encode_var_int"), ("prefix-driven reads", "utils.rs var_int_from_stream, var_int_with_bytes_from_stream, decode_var_int")],
  ["return values", "position of the input stream"], HOOK)

p("C02", "Fixed-width integers, byte runs and connection ids decode exactly",
  "Integers of 8/16/32/64/128 bits are decoded big-endian from slices and streams; variable-width integers, counted byte runs and 0..20-byte connection ids are read exactly as given, each consuming exactly its own bytes. A connection id of any length from 0 to 20 bytes written back at that length reproduces the original bytes, its 20-byte form is the same value left-padded with zeros, and two ids of the same length are equal exactly when their bytes are. Input that is too short, or a stream error within the item, is an error and never a shortened or padded value.",
  ["inputs"], "all byte strings, all widths, all connection-id lengths 0..20, any trailing bytes",
  "no test covers these decoders; connection ids appear in tests only with 8 or 0 bytes, never using the upper 32 of their 160 bits",
  ["src/utils.rs"], [("160-bit shift register", "utils.rs U160, var_u160_from_stream"), ("big-endian integer decoders", "utils.rs prelude"), ("counted reads", "utils.rs var_bytes_from_stream, decode_bytes")],
  ["return values", "position of the input stream"], HOOK)

p("C03", "Serialised frames are exactly what an RFC 9000 parser reads back",
  "For every sequence of frames, built with the constructors or obtained by decoding, the serialised payload parses under RFC 9000 section 19 into exactly the same frames, in the same order and with the same field values, with nothing added or lost. Only a STREAM frame that is last in a payload marked as ending the datagram may omit its length. A frame holding a value above 2^62-1 in a variable-length field makes serialisation fail instead of producing bytes.",
  ["inputs"], "all 20 frame kinds, all field values, all sequences, both end-of-datagram flags",
  "one test serialises each frame kind once with one-byte field values and never as part of a sequence, never with an offset, and never with the end-of-datagram flag",
  ["src/frame.rs"], [("per-frame encoders", "frame.rs *::to_bytes"), ("sequence serialiser and omit-length rule", "frame.rs serialize_frames, FrameStream::to_bytes")],
  ["bytes returned by serialisation"], HOOK)

p("C04", "Every well-formed frame payload decodes to exactly its frames",
  "Every payload that is a sequence of well-formed RFC 9000 frames, with variable-length integers in any legal width, decodes successfully into exactly those frames, in order, with every field value, flag, offset and data byte preserved. Decoding a single frame consumes exactly that frame's bytes and leaves the following bytes unread; only a STREAM frame without a length field takes all remaining bytes.",
  ["inputs"], "all frame kinds and type-flag combinations, all field values, all varint widths, all sequences",
  "the tests decode a single CRYPTO frame with offset 0; the other 19 kinds, the STREAM flag bits, ACK ranges and frame sequences are never decoded",
  ["src/frame.rs", "src/utils.rs"], [("frame dispatch on type", "frame.rs deserialize_frame"), ("per-frame decoders", "frame.rs *::from_datagram"), ("sequence loop", "frame.rs deserialize_frames")],
  ["decoded frames observed through re-serialisation parsed by an independent parser", "position of the input stream"], HOOK)

p("C05", "Malformed frame payloads are rejected as a whole",
  "A payload in which some frame is cut short, has a type other than 0x00..0x1e (judged on the whole type value), or is a NEW_CONNECTION_ID whose connection-id length is 0 or above 20, is rejected with an error, and no frames are reported from it. A stream error while reading a payload is likewise reported as an error. A payload is never accepted with a meaning other than the one an RFC 9000 parser gives it.",
  ["inputs"], "all byte strings; every truncation point of every frame; every 62-bit frame type",
  "no test feeds the frame decoder a malformed payload",
  ["src/frame.rs", "src/utils.rs"], [("type dispatch", "frame.rs deserialize_frame"), ("short-read errors", "utils.rs *_from_stream"), ("connection id length check", "frame.rs FrameNewConnectionId::from_datagram")],
  ["Ok/Err and content of the decode result"], HOOK)

p("C06", "No input from the network can panic or stall the decoder",
  "For every byte string received as a datagram, on a connection in any role and with keys for any subset of packet number spaces, parsing the header, decoding the packets, decoding a frame payload and routing the datagram each finish with a result or an error: they never panic, overflow, index out of bounds or read on without end. This includes datagrams that are cut at any point, contradictory length fields, unsupported packet types, and correctly encrypted packets with an arbitrary or empty payload.",
  ["inputs", "configurations"], "all datagrams including truncations, mutations and validly sealed garbage; all connection roles and key states",
  "the tests decode one valid packet; no invalid datagram is ever fed to the library",
  ["src/packet.rs", "src/frame.rs", "src/utils.rs", "src/quictls/cipher_suite.rs", "src/routing.rs"],
  [("error returns instead of unwraps", "packet.rs decode_next_packet, *::from_stream"), ("length checks before subtraction", "packet.rs, cipher_suite.rs"), ("bounded reads", "utils.rs")],
  ["panics", "number of reads from the input"], HOOK)

p("C07", "Lengths and counts claimed by a peer never drive memory use",
  "While a datagram, a packet header or a frame payload is decoded, the memory allocated stays proportional to the bytes actually received, whatever lengths or counts (token, packet, crypto, stream, reason, token and ACK-range lengths, connection-id lengths) the input declares.",
  ["inputs"], "all declared lengths up to 2^62-1 in every length or count field, in plain and in validly sealed payloads",
  "no test measures allocation or sends a length larger than the data present",
  ["src/utils.rs", "src/frame.rs", "src/packet.rs"], [("growth only by bytes read", "utils.rs var_bytes_from_stream ('dynamic to avoid malicious large allocations')"), ("ranges pushed one at a time", "frame.rs FrameAck::from_datagram")],
  ["peak heap bytes during the call"], HOOK)

p("C08", "Initial and derived keys follow RFC 9001 for every connection id",
  "For every connection id and role, the Initial key, IV and header-protection key used to protect and unprotect are those RFC 9001 section 5 derives from that id, and for every traffic secret the packet keys are those derived with the QUIC labels. A client's sending keys are its server's receiving keys and the reverse, and the two directions differ. HKDF-Extract and HKDF-Expand-Label agree with RFC 5869 and RFC 8446 for every salt, secret, label, context and output length, and refuse lengths that cannot be represented.",
  ["inputs", "configurations"], "all connection ids 0..20 bytes, both roles, all secrets, labels, contexts and lengths",
  "the tests check the single RFC 9001 appendix-A connection id",
  ["src/quictls/secrets.rs", "src/quictls/cipher_suite.rs", "src/version.rs", "src/connection.rs"],
  [("initial salt and labels", "version.rs, secrets.rs"), ("HkdfLabel construction", "cipher_suite.rs get_hkdf_label_info"), ("role-dependent assignment", "connection.rs Connection::new")],
  ["ciphertexts and masks produced, compared with an independent key schedule (ring)"], HOOK)

p("C09", "Payload protection is AEAD_AES_128_GCM with the RFC 9001 nonce",
  "For every key, packet number, associated data and payload, protecting gives the AES-128-GCM ciphertext and tag under the nonce IV xor packet number, whose length is the predicted protected length, and unprotecting it with the same inputs gives the payload back. Unprotecting with any change to the ciphertext, tag, associated data, packet number or key, or with fewer bytes than a tag, is an error.",
  ["inputs"], "all payloads including empty, all associated data, all 64-bit packet numbers, every single-bit change, every truncation",
  "the tests protect and unprotect one payload with packet number 2 and never check that a forged one is refused",
  ["src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"], [("nonce construction", "secrets.rs encrypt_payload/decrypt_payload"), ("AEAD call and tag split", "cipher_suite.rs encrypt/decrypt_aes_128_gcm")],
  ["ciphertext, plaintext or error"], HOOK)

p("C10", "Packets the library sends open at any conforming receiver",
  "Every Initial and Handshake packet the library builds and serialises is accepted by an independent RFC 9000/9001 receiver holding the peer's keys, which recovers the connection's version and connection ids, the token, the full packet number and exactly the frames given. The form, fixed, type and reserved bits and the length field are as the RFC requires, and serialising a packet again gives the same bytes. When a packet cannot be represented (an unencodable frame, no source id, too few bytes to sample) the library reports an error instead of emitting bytes.",
  ["inputs", "histories"], "all connection ids, tokens, frame lists, roles, packet-number positions and acknowledgement states",
  "one test serialises the RFC 9001 sample packet built by hand with a 4-byte packet number, bypassing the packet constructor; Handshake packets are never serialised",
  ["src/packet.rs", "src/connection.rs", "src/frame.rs", "src/quictls/secrets.rs"], [("packet construction", "packet.rs PacketInitial::new, PacketHandshake::new"), ("protection on send", "packet.rs *::serialize")],
  ["serialised bytes"], HOOK)

p("C11", "Every conforming protected packet is decoded exactly",
  "Every Initial, 0-RTT, Handshake and 1-RTT packet produced by a conforming sender for a connection whose keys are installed, with a packet number of 1 to 4 bytes, length fields in any legal width, any connection ids, token and frames, decodes successfully. The result has the sender's version, connection ids, token, full packet number and exactly the sender's frames.",
  ["inputs", "configurations", "histories"], "all four packet types, both roles, all packet-number lengths and receive positions, all ids, tokens and frame lists",
  "the tests decode one client Initial with a 4-byte packet number and do not look at the result",
  ["src/packet.rs", "src/connection.rs", "src/frame.rs"], [("header protection removal and packet number extraction", "packet.rs *::from_stream"), ("packet number reconstruction", "connection.rs reconstruct_remote_pn"), ("associated data assembly", "packet.rs *::from_stream")],
  ["decoded packet"], HOOK)

p("C12", "A modified or misdirected protected packet is never accepted",
  "If any bit of a protected packet (header, connection ids, token, length, packet number, payload or tag) is changed, or the packet is cut short, decoding never reports a protected packet from it. The same holds for an unmodified packet decoded with another connection's keys, with the keys of the opposite direction or of another packet number space, with no keys for its space, or at a receive position that maps it to another packet number.",
  ["inputs", "fault_sequences", "configurations"], "every bit position and truncation of generated packets of all four types; all wrong-key and wrong-position combinations",
  "no test presents a modified packet",
  ["src/packet.rs", "src/quictls/secrets.rs", "src/connection.rs"], [("whole header as associated data", "packet.rs *::from_stream"), ("per-space, per-direction secrets", "connection.rs PacketNumberSpaceInfo"), ("tag verification", "cipher_suite.rs decrypt_aes_128_gcm")],
  ["decode result"], HOOK)

p("C13", "Packet numbers are never reused and spaces are independent",
  "Over any history of packet construction and acknowledgement on a connection, successive packet numbers in each packet number space strictly increase and none is ever handed out twice, also after constructions that failed. The numbers handed out in one space do not depend on what happened in the others.",
  ["histories"], "all interleavings of packet constructions (successful and failing), raw number requests and acknowledgements over the three spaces, including long histories",
  "no test asks a connection for a packet number",
  ["src/connection.rs", "src/packet.rs"], [("per-space counter", "connection.rs get_next_pn"), ("space of each packet type", "packet.rs PN_SPACE")],
  ["numbers returned by the connection and carried by packets"], HOOK,
  [("next packet number", "last number handed out in the space", "connection.rs PacketNumberSpaceInfo.next_pn")])

p("C14", "Truncated packet numbers reconstruct to the number that was sent",
  "For every packet number and every largest acknowledged number below it, the truncated form the library sends is the low-order bytes of the number, 1 to 4 of them, and a receiver that has seen any number from the acknowledged one up to just below it recovers the full number; a number that cannot be represented so is refused when the packet is built. Reconstruction of any 1 to 4 byte truncated number in any receive state gives the RFC 9000 appendix A.3 result, using only the state of its own packet number space.",
  ["inputs", "histories"], "all packet numbers below 2^62, all acknowledged and received positions, all truncated lengths",
  "no test calls truncation or reconstruction; the sample packet is decoded with no receive state",
  ["src/connection.rs", "src/packet.rs", "src/utils.rs"], [("length selection", "connection.rs truncate_pn"), ("window arithmetic", "connection.rs reconstruct_remote_pn"), ("length limit", "packet.rs PacketInitial::new, PacketHandshake::new")],
  ["truncated bytes", "reconstructed number"], HOOK,
  [("largest seen/acked", "receive and acknowledgement position of the space", "connection.rs PacketNumberSpaceInfo")])

p("C15", "Packet headers parse exactly and round-trip",
  "From every byte string the header parser recovers exactly the form, packet type, version and connection ids (with their lengths) that RFC 9000 section 17 assigns to it, with 8-byte destination ids in short headers, consumes exactly the header, and writing the header back gives the same bytes. Connection ids over 20 bytes are refused except in version negotiation, where up to 255 are accepted, and a header that is cut short is an error.",
  ["inputs"], "all first bytes, versions, connection-id lengths 0..255 and contents; every truncation",
  "the header test is empty; one sample header is parsed on the way to another assertion",
  ["src/packet.rs", "src/utils.rs"], [("form dispatch", "packet.rs next_header_from_stream"), ("long header parse and write", "packet.rs LongPacketHeader"), ("short header parse and write", "packet.rs ShortPacketHeader")],
  ["parsed header fields", "position of the input stream"], HOOK)

p("C16", "Header protection touches only its bits, inverts, and gates reads",
  "Removing or adding header protection changes only the low 4 bits of a long header's first byte or the low 5 of a short header's, by exactly the mask, and applying one after the other restores the original; repeating either has no further effect, and Retry and version negotiation headers are not changed by removal. While a header is protected its packet-number length (and, in a short header, spin, reserved and key-phase bits) cannot be read; afterwards they are the RFC 9000 bits. The mask for a sample is AES-128-ECB of the first 16 sample bytes under the key of the requested direction and space, and a shorter sample is an error.",
  ["inputs"], "all first bytes, masks, samples, keys, spaces and directions, and sequences of add/remove",
  "one mask is checked, on the raw cipher function; no test removes or adds protection in isolation",
  ["src/packet.rs", "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs", "src/connection.rs"], [("masking and protected flag", "packet.rs add_protection/remove_protection"), ("mask computation", "cipher_suite.rs hp_mask, secrets.rs get_header_protection_mask")],
  ["header bytes", "accessor results"], HOOK)

p("C17", "Coalesced packets in a datagram all decode, in order",
  "A datagram made of any number of valid long-header packets, optionally ending in one short-header packet, decodes to exactly those packets in order, each with the content it has when decoded alone. Decoding one packet consumes exactly that packet's bytes, so the following packet is found where it starts.",
  ["inputs", "configurations"], "all sequences of packet types and sizes, roles and packet-number lengths",
  "no test decodes a datagram with more than one packet",
  ["src/packet.rs"], [("packet loop", "packet.rs decode_packets, decode_next_packet"), ("length-delimited consumption", "packet.rs *::from_stream")],
  ["decoded packet list", "position of the input stream"], HOOK)

p("C18", "Version negotiation packets report exactly the peer's versions",
  "A version negotiation packet with any first byte of the long form, any connection ids of 0 to 255 bytes and any list of versions decodes, without keys, to exactly those ids and that list, in order. One whose version list is not a whole number of 4-byte entries, or whose ids are cut short, is an error.",
  ["inputs"], "all version lists, connection ids 0..255 bytes, all list lengths modulo 4",
  "no test decodes a version negotiation packet",
  ["src/packet.rs"], [("union fields for long ids", "packet.rs LongPacketHeader::from_stream"), ("version list", "packet.rs PacketVersionNegotiation::from_stream")],
  ["decoded packet"], HOOK)

p("C19", "Transport parameters serialise per RFC 9000 section 18",
  "Every transport parameter serialises to its registered identifier, the exact length of its value, and its value: integers as variable-length integers, connection ids and tokens as raw bytes, the migration flag as an empty value, and the preferred address as addresses, ports, length-prefixed connection id and reset token. Any concatenation of serialised parameters therefore parses back to the same parameters, and an integer above 2^62-1 is refused.",
  ["inputs"], "all 17 parameters, all values, all sequences",
  "no test touches transport parameters",
  ["src/transport_parameters.rs", "src/utils.rs"], [("identifier table", "transport_parameters.rs identifier_val"), ("value encoding", "transport_parameters.rs serialize")],
  ["serialised bytes"], HOOK)

p("C20", "Datagrams are routed only to the connection they address",
  "Over any history of connections being added and dropped and datagrams arriving, a datagram whose destination connection id is the 8-byte id of a live connection, in a long, short or version negotiation header, is queued unmodified and in arrival order on that connection and on no other. A datagram whose id belongs to no live connection (including one already dropped) or whose header cannot be parsed is refused with an error and changes nothing, and dropping a connection affects no other.",
  ["histories", "inputs"], "all sequences of add, drop, arrive and drain over several connections and all header forms",
  "no test opens a socket or routes a datagram",
  ["src/routing.rs", "src/packet.rs", "src/interface.rs"], [("connection table lookup", "routing.rs route_datagram"), ("removal on drop", "routing.rs drop_connection, interface.rs Drop for QuicStream")],
  ["per-connection queues", "routing results"], HOOK,
  [("connection table", "live connections by issued id", "routing.rs InternalQuicSocket.streams")])

p("C21", "Waiting for a connection survives any traffic and registers it once",
  "While a socket waits for a new connection, any sequence of arriving datagrams (garbage, empty, unknown ids, any packet type or size) is either queued on the live connection it addresses or dropped, without stopping the wait; the wait ends at the first Initial packet for an unknown connection id and yields that datagram unmodified, up to the largest UDP payload, with its sender's address. Accepting registers exactly one connection, under a fresh 8-byte id different from every live one, holding that id as its source id and the client's chosen id for its keys; existing connections are unaffected. When receiving from the network fails, the wait ends with that error, registers nothing and leaves the socket usable.",
  ["histories", "inputs", "fault_sequences"], "all datagram sequences over a real loopback UDP socket, all prior connection tables, repeated accepts",
  "no test opens a socket",
  ["src/routing.rs", "src/quictls/utils.rs", "src/connection.rs"], [("wait loop", "routing.rs recv_new_initial_datagram"), ("receive buffer", "routing.rs recv_datagram"), ("id allocation under the table lock", "routing.rs accept")],
  ["returned datagram", "connection table", "per-connection queues"], HOOK)

p("C22", "Errors map to the RFC 9000 transport error codes",
  "Every error the library can report maps to the transport error code RFC 9000 section 20.1 registers for it, whatever text it carries, and no two kinds of error share a code.",
  ["inputs"], "all error kinds with any message",
  "no test looks at an error code",
  ["src/error.rs"], [("code table", "error.rs to_error_byte")], ["returned code"], HOOK)

p("C23", "The hex dump tool reproduces every file exactly",
  "For every list of files, none of which is the output for another, the hex-dump tool writes next to each readable file a text whose hex digits, ignoring white space, are exactly the file's bytes in order, in lines of two 16-byte groups separated by one space with only the last line shorter, and leaves the input unchanged. A file that cannot be read is reported and does not prevent the others from being processed.",
  ["inputs"], "all file contents and sizes, all lists of files with unreadable ones at any position",
  "no test runs the tool",
  ["tools/prettify_bin.py"], [("line pairing and odd tail", "prettify_bin.py reformat_bin"), ("per-file error handling", "prettify_bin.py main")],
  ["written files", "output"], None)

p("C24", "A socket decodes each datagram with its own connection's keys",
  "On a socket with any set of connections, decoding a datagram uses the keys and receive state of exactly the connection its destination id names: it gives the packets the peer of that connection sent, while a datagram sealed for another connection, or naming no live connection, is an error. Traffic logging being on or off, and other datagrams decoded before it, make no difference to the result.",
  ["inputs", "configurations", "histories"], "all connection sets, all sealing/addressing combinations, logging on and off, decode orders",
  "no test opens a socket or decodes through it",
  ["src/routing.rs", "src/packet.rs", "src/connection.rs"], [("connection lookup before decoding", "routing.rs packets_from_datagram")],
  ["decoded packets or error"], HOOK)

p("C25", "Issued connection ids are fresh and unpredictable",
  "The 8-byte ids the library issues for its own connections are drawn uniformly from the whole 64-bit space: in every batch, drawn by any number of threads or processes or through accepting connections, no id repeats, no bit or byte is fixed, biased or determined by other bits of the id, by the ids issued before it, by another process's ids, or by the ids the client sent.",
  ["inputs", "histories", "schedules", "configurations"], "all batches of ids over threads, processes and accepted connections, all client ids",
  "randomness is a fact about all draws together; no test draws an id",
  ["src/quictls/utils.rs", "src/routing.rs"], [("random id", "quictls/utils.rs get_connection_id"), ("issue on accept", "routing.rs accept")],
  ["issued ids"], HOOK)

p("C26", "A socket holds its address exactly while it is in use",
  "Binding a socket succeeds exactly when one of the given addresses can be bound, and takes the first such address and no other; otherwise an error is returned and nothing stays bound. From then on that socket alone holds the address and receives what is sent there, and the address becomes free again exactly when the socket and every stream handle made from it are gone, in whatever order they go. An accept on the public socket does not return before a client's Initial arrives, whatever else arrives, and ends when it does.",
  ["histories", "inputs", "schedules"], "all address lists and occupancies, all orders of dropping sockets and stream handles, all traffic before an accept",
  "no test opens a socket",
  ["src/interface.rs", "src/routing.rs"], [("binding", "interface.rs QuicSocket::bind, routing.rs bind"), ("shared ownership of the socket", "interface.rs QuicSocket, QuicStream, Drop"), ("public accept", "interface.rs accept")],
  ["which addresses can be bound from outside", "received datagrams", "whether accept has ended"], HOOK)

p("C27", "Two endpoints of the library understand each other over an unreliable network",
  "In every exchange between a client and a server connection of the library that share the client's chosen id and the handshake secrets, with datagrams of one or more Initial and Handshake packets going both ways and being lost, repeated, delayed or reordered, every datagram that arrives whole, and whose packet numbers the receiver can still tell apart, decodes at the other end to exactly the packets that were put into it, in order: type, version, ids, token, full packet number and frames. No packet is ever reported that the other end did not send: not from a damaged datagram, not from one that comes back to its sender, and not from one of another exchange.",
  ["histories", "inputs", "schedules"], "all interleavings of sending, loss, repetition, reordering, damage and acknowledgement in both directions of one or two exchanges, after any number of earlier packets",
  "tests decode one recorded packet; none lets the library talk to itself over a history",
  ["src/packet.rs", "src/connection.rs", "src/quictls/secrets.rs", "src/frame.rs"], [("sending", "packet.rs PacketInitial, PacketHandshake"), ("receiving", "packet.rs decode_packets"), ("numbers and keys of the two directions", "connection.rs get_next_pn, reconstruct_remote_pn, Connection::new")],
  ["packets reported at each end"], HOOK)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
