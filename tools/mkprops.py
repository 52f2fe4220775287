#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording and anchors stay reviewable)."""
import json, os
H='bnl/http3/src/codec/'; HI='bnl/http3/include/bnl/http3/codec/'
E='bnl/http3/src/endpoint/stream/'; B='bnl/base/src/base/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Variable-length integers are encoded losslessly and in shortest form",
 "Encoding any integer below 2^62 succeeds, writes exactly the number of bytes the size query predicts, uses the shortest of the 1, 2, 4 and 8 byte QUIC forms (big-endian, length in the two top bits) and writes nothing else, so that decoding the result gives the integer back. Encoding, or asking for the encoded size of, any integer of 2^62 or more is refused with the overflow error and produces no bytes.",
 ["inputs"],"every 64-bit value, both the encode-into-memory and the encode-to-buffer entry points",
 "the tests encode a few dozen values; the 2^64 domain and its four boundaries cannot be enumerated",
 [H+"varint/encode.cpp",HI+"varint.hpp"],
 [("size selection and masks","bnl::http3::varint::encoded_size, encode in varint/encode.cpp")],observe=["varint::encoded_size","varint::encode"])
p("C02","Variable-length integer decoding is exact on every byte sequence",
 "For every byte sequence, held in one buffer or split over any number of chunks, decoding an integer gives the value of the QUIC variable-length form at its front and consumes exactly that form's 1, 2, 4 or 8 bytes. When fewer bytes are available than the form needs it reports incomplete and consumes nothing.",
 ["inputs"],"all byte sequences of all lengths, all four sequence types (buffer, buffers and their lookaheads), all chunkings",
 "the tests decode a few dozen encodings held in single buffers",
 [H+"varint/decode.cpp",HI+"varint.hpp"],
 [("lookahead then commit","bnl::http3::varint::decode in varint/decode.cpp")],observe=["varint::decode"])
p("C03","HPACK prefix integers round-trip and are never silently wrapped",
 "For every 64-bit value and every prefix width from 1 to 7 bits, encoding leaves the bits above the prefix in the first byte as they were (zero when a fresh buffer is returned), writes exactly the predicted number of bytes in the RFC 7541 5.1 form, and decoding yields the same value and consumes exactly those bytes. Decoding arbitrary bytes yields the mathematical value of the encoding at the front, or incomplete when it is cut short, or an error when that value does not fit 64 bits, never a wrapped value; on incomplete or error nothing is consumed.",
 ["inputs"],"all 64-bit values x prefix widths 1..7; all byte sequences, all sequence types",
 "no test exercises prefix integers directly; QPACK tests only reach small values",
 [H+"qpack/prefix_int/encode.cpp",H+"qpack/prefix_int/decode.cpp",HI+"qpack/prefix_int.hpp"],
 [("prefix mask and 7-bit continuation","bnl::http3::qpack::prefix_int::{encoded_size,encode,decode}")],observe=["qpack::prefix_int::encode","qpack::prefix_int::decode"])
p("C04","Huffman encoding is exactly RFC 7541 and round-trips",
 "For every byte string, Huffman encoding produces exactly the concatenation of the RFC 7541 Appendix B codes of its bytes followed by fewer than eight one bits of padding, whatever the destination memory held before, and writes exactly the predicted number of bytes. Decoding that output yields the original string, including the empty one.",
 ["inputs"],"all byte strings of all lengths",
 "tests cover a handful of strings; code packing depends on every combination of bit offset and code length",
 [H+"qpack/huffman/encode.cpp",H+"qpack/huffman/encode_generated.cpp"],
 [("bit packing","symbol_encode, encode, encoded_size in huffman/encode.cpp"),("code table","huffman::encoding::table in encode_generated.cpp")],observe=["qpack::huffman::encode","qpack::huffman::encoded_size"])
p("C05","Huffman decoding accepts exactly the valid encodings",
 "For every byte sequence and length, Huffman decoding succeeds exactly when the bytes are a concatenation of RFC 7541 codes (other than end-of-string) followed by fewer than eight padding bits that are all ones; it then returns exactly the encoded string and consumes exactly the stated length. Otherwise it reports a decompression failure, or incomplete when fewer bytes than the stated length are available, and consumes nothing.",
 ["inputs"],"all byte sequences of all lengths, all sequence types",
 "tests decode a handful of valid strings; none checks the 256x16 decoding automaton",
 [H+"qpack/huffman/decode.cpp",H+"qpack/huffman/decode_generated.cpp"],
 [("nibble automaton","decoded_size, decode in huffman/decode.cpp; huffman::decoding::table")],observe=["qpack::huffman::decode"])
p("C06","QPACK string literals round-trip at their predicted size",
 "For every byte string and every prefix width from 1 to 7, literal encoding writes exactly the predicted number of bytes, keeps the bits above the Huffman flag as they were (zero when a fresh buffer is returned), picks the Huffman form exactly when it is strictly shorter than the raw form, and decoding yields the same string and consumes exactly those bytes. Decoding arbitrary bytes never accepts a literal whose declared length exceeds the bytes available and consumes nothing unless it succeeds.",
 ["inputs"],"all byte strings, prefixes 1..7; all byte sequences, all sequence types",
 "literals are only reached through a few QPACK test headers",
 [H+"qpack/literal/encode.cpp",H+"qpack/literal/decode.cpp"],
 [("form selection and H flag","bnl::http3::qpack::literal::{encoded_size,encode,decode}")],observe=["qpack::literal::encode","qpack::literal::decode"])
p("C07","The QPACK static table is used exactly as standardised",
 "A header field is encoded as a static-table reference only if the referenced entry of the 99-entry standard table has exactly that name (and, for a full reference, exactly that value); a full reference is used whenever the table contains the pair (with a non-empty value) and a name reference whenever it only contains the name. Decoding a reference to entry i yields exactly the standard entry i, and any index above 98 (or a dynamic-table reference) is refused with a decompression failure.",
 ["inputs"],"all header names and values; all 64-bit indices",
 "the lookup is keyed by 64-bit hashes and a generated switch; tests touch about ten entries and no colliding or out-of-range one",
 [H+"qpack/encode_generated.cpp",H+"qpack/decode_generated.cpp",H+"qpack/encode.cpp",H+"qpack/decode.cpp"],
 [("hash switch","table::fixed::find_index in encode_generated.cpp"),("index switch","table::fixed::find_header_value / find_header_only in decode_generated.cpp")],observe=["qpack::encoder::encode","qpack::decoder::decode"])
p("C08","QPACK header lists round-trip",
 "Encoding any sequence of header fields with one encoder writes the two zero prefix bytes once, before the first field line, and for each field exactly the predicted number of bytes, the encoder's count being the total so far; decoding those bytes with one decoder, in any chunking, yields the same names and values in the same order with an equal count. The buffer-returning encoder and the size query refuse a name containing an upper-case ASCII letter with malformed header and leave the encoder as it was.",
 ["inputs","histories"],"all header lists, all names and values, all chunkings",
 "tests encode two short header lists in one chunk",
 [H+"qpack/encode.cpp",H+"qpack/decode.cpp",HI+"qpack.hpp"],
 [("field line forms and prefix state","qpack::encoder, qpack::decoder")],
 [("count_","bytes produced/consumed so far","qpack.hpp"),("state_","whether the prefix has been handled","qpack.hpp")],observe=["qpack::encoder","qpack::decoder"])
p("C09","QPACK decoding of arbitrary bytes is exact",
 "For every byte sequence, decoding one field line either yields the field it denotes (static indexed, static name reference, or literal name and value), or reports incomplete when the line is cut short, or refuses it with a decompression failure or malformed header. Exactly the bytes of a decoded line are consumed and counted, a line that is incomplete or refused consumes nothing beyond the two prefix bytes, an upper-case literal name is always refused, and feeding the rest later gives the same field.",
 ["inputs","histories"],"all byte sequences, every split point, buffer and buffers",
 "tests decode valid blocks only, in one piece",
 [H+"qpack/decode.cpp",HI+"qpack.hpp"],
 [("lookahead then commit","qpack::decoder::decode")],observe=["qpack::decoder::decode"])
p("C10","HTTP/3 frames are encoded exactly and refuse overflow",
 "For every frame whose integer fields are all below 2^62, encoding succeeds and writes exactly the predicted number of bytes: type, payload length equal to the payload that follows (or is announced, for DATA, HEADERS and PUSH_PROMISE), and the payload fields in order; decoding gives back an equal frame and consumes exactly those bytes. If any field or the payload length is 2^62 or more, the size query and both encoders report varint overflow instead of writing a wrong length.",
 ["inputs"],"all nine frame types and all field values",
 "tests encode one instance of each frame type",
 [H+"frame/encode.cpp",H+"frame/frame.cpp",HI+"frame.hpp","bnl/base/src/http3/settings.cpp"],
 [("payload size and field order","payload_size, frame::encoded_size, frame::encode")],observe=["frame::encode","frame::encoded_size","operator==(frame)"])
p("C11","HTTP/3 frame decoding of arbitrary bytes is exact",
 "For every byte sequence, in any chunking, frame decoding skips complete frames of unknown type (their whole payload) and yields the first frame of a known type with its fields, consuming exactly the bytes up to the end of that frame (of its header for DATA and HEADERS, of the push id for PUSH_PROMISE). A payload whose fields do not match its declared length is refused as malformed once those fields have arrived, a frame cut short is reported incomplete, and in both cases nothing of that frame is consumed.",
 ["inputs"],"all byte sequences, chunkings and sequence types",
 "tests decode well-formed frames plus two malformed ones",
 [H+"frame/decode.cpp",HI+"frame.hpp"],
 [("lookahead then commit","decode_single, frame::decode")],observe=["frame::decode"])
p("C12","Peeking at the next frame agrees with decoding it",
 "For every byte sequence, peeking consumes nothing and reports exactly the type of the first frame of known type after skipping whole unknown frames; a type is reported only if the bytes in front of it are complete unknown frames, and never taken from the length or payload bytes of an unknown frame. When frame decoding succeeds, peeking beforehand reports that frame's type.",
 ["inputs"],"all byte sequences, chunkings and sequence types",
 "no test peeks past an unknown frame",
 [H+"frame/decode.cpp"],
 [("skip loop","frame::peek")],observe=["frame::peek","frame::decode"])
p("C13","A buffer owns exactly its bytes through every operation",
 "Through any sequence of construction, move, consume, slice and concatenation, every live buffer keeps exactly the bytes it was given or sliced from: slicing n bytes returns exactly the first n and leaves the rest, moving transfers the content and leaves the source empty, and no operation changes another buffer's content. Shared memory is released exactly when the last buffer referring to it is destroyed, never earlier, later or twice, for small (inline) and large buffers alike.",
 ["inputs","histories"],"all buffer sizes and contents, all finite operation histories over any number of buffers",
 "tests slice two fixed sizes; aliasing of shared slices and the inline/heap boundary are not covered",
 [B+"buffer.cpp","bnl/base/include/bnl/base/buffer.hpp"],
 [("reference count and inline storage","base::buffer special members, slice, consume, destroy")],
 [("begin_,end_","the slice","buffer.hpp"),("sso_","inline bytes or pointer to the reference count","buffer.hpp")],observe=["base::buffer"])
p("C14","A chunk list behaves as the concatenation of its chunks",
 "A list of byte chunks is observably the concatenation of its chunks: size, indexing, consuming and slicing depend only on the concatenated bytes and never on where the chunk boundaries or empty chunks are. Pushing appends at the end, popping returns the oldest remaining chunk, slicing n bytes (0 included) returns exactly the first n bytes and removes exactly those.",
 ["inputs","histories"],"all chunk lists of all lengths, including empty chunks, and all operation histories",
 "tests use one list of four chunks",
 [B+"buffers.cpp","bnl/base/include/bnl/base/buffers.hpp"],
 [("iteration over chunks","base::buffers::{size,operator[],slice,consume,push,pop}")],observe=["base::buffers"])
p("C15","Lookahead never disturbs what it looks at",
 "A lookahead over a buffer or chunk list shows exactly the bytes not yet consumed through it, in order, and consuming through it (or through a lookahead created from it) never changes the underlying sequence or the parent lookahead. Its consumed count is exactly the number of bytes consumed through it, so committing that count on the parent leaves precisely the bytes the lookahead still showed.",
 ["inputs","histories"],"all sequences, positions, and nesting of lookaheads",
 "lookaheads are never tested directly",
 [B+"buffer.cpp",B+"buffers.cpp"],
 [("position bookkeeping","buffer::lookahead, buffers::lookahead")],observe=["buffer::lookahead","buffers::lookahead"])
p("C16","DATA framing carries the body unchanged",
 "The body encoder emits, for every non-empty chunk added and in order, one DATA header announcing exactly that chunk's length followed by exactly that chunk, reports finished exactly when the body was ended and everything was emitted, and refuses additions after the end. The body decoder, given the bytes of DATA frames in any chunking, returns exactly the payload bytes in order, never bytes of another frame, reports being inside a frame exactly while announced payload is outstanding, handles zero-length frames, and reports a different known frame for delegation without consuming it.",
 ["inputs","histories"],"all chunk sequences, all interleavings of add/end/encode, all chunkings of the decoded stream",
 "the only test transfers one five-byte body",
 [H+"body.cpp",HI+"body.hpp"],
 [("state machines","body::encoder, body::decoder")],
 [("remaining_","announced payload not yet delivered","body.hpp")],observe=["body::encoder","body::decoder"])
p("C17","HEADERS framing carries the header block unchanged",
 "The header encoder emits, once started, one HEADERS frame whose announced length is exactly the length of the QPACK block that follows it, in the order the fields were added; fields cannot be added after starting, starting without fields or twice is refused, and it never aborts. The header decoder yields exactly the fields of the first HEADERS frame, finishes exactly at its end, refuses an empty block or a field line that crosses the frame's end as malformed, and reports a different known frame for delegation without consuming it.",
 ["inputs","histories"],"all field lists, all operation interleavings, all chunkings",
 "tests transfer one four-field and one one-field list",
 [H+"headers.cpp",HI+"headers.hpp"],
 [("state machines","headers::encoder, headers::decoder")],
 [("headers_size_","announced block length","headers.hpp")],observe=["headers::encoder","headers::decoder"])
p("C18","An outgoing message stream is well formed and ends exactly once",
 "Whatever the interleaving of adding fields, starting, adding body chunks, ending the message and sending, the events a message sender produces all carry its stream id and, concatenated, form one HEADERS frame with its block followed by one DATA frame per non-empty body chunk, in order. The end-of-stream mark is set on exactly one event, the last one, exactly when the message was ended and everything was emitted; nothing is sent before the message is started, nothing after the end, and an ended message never gets stuck short of its end.",
 ["inputs","histories"],"all interleavings of API calls, all header lists and body chunkings",
 "the only test makes all calls before the first send",
 [E+"request.cpp","bnl/http3/include/bnl/http3/endpoint/stream/request.hpp"],
 [("sender state machine","stream::request::sender::send")],
 [("state_","headers, body, fin","request.hpp")],observe=["sender::send","sender::finished"])
p("C19","An incoming message stream is delivered faithfully in any chunking",
 "However the bytes and the end mark of a message stream are cut into chunks, a receiver reports the header fields in order with the end-of-headers mark on the last one, then exactly the body bytes in order, then finished; the end of the body is reported exactly when the end mark was received and all bytes were used. A stream ending inside a frame or field line is an error, and a frame that may not appear at that point (such as DATA before HEADERS, or SETTINGS) is an error, never silently accepted (a HEADERS frame after the body ends the body; such trailing fields are not reported).",
 ["inputs","histories"],"all byte streams, chunkings and positions of the end mark, interleaved with processing in any way",
 "the only test delivers whole frames in order",
 [E+"request.cpp","bnl/http3/src/client/stream/request.cpp","bnl/http3/src/server/stream/request.cpp"],
 [("receiver state machine","stream::request::receiver::{recv,process}")],
 [("fin_received_","end mark seen","request.hpp"),("state_","closed, headers, body, fin","request.hpp")],observe=["receiver::recv","receiver::process"])
p("C20","Control stream rules hold in both directions",
 "An endpoint's control stream carries, on the stream id of its role and never with an end mark, the control type, then exactly one SETTINGS frame, then nothing. On the peer's control stream, in any chunking, the first frame is reported as settings if it is SETTINGS and refused as missing settings otherwise; later frames are refused with the error for their type (wrong stream, unexpected frame or not implemented), an end mark is refused as closed critical stream, and a stream of another type is refused with an error, never an abort.",
 ["inputs","histories"],"all byte streams and chunkings, client and server roles",
 "the only test exchanges default settings",
 [E+"control.cpp","bnl/http3/src/client/stream/control.cpp","bnl/http3/src/server/stream/control.cpp"],
 [("state machine","stream::control::sender, stream::control::receiver")],observe=["control::sender::send","control::receiver::{recv,process}"])
p("C21","The client routes streams to the right request",
 "A client gives its requests the ids 0, 4, 8, ... without reuse, sends its control stream before any request data, and delivers bytes for a stream only to the request with that id (or to the control stream), leaving every other request as it was. Unidirectional streams other than the control stream are ignored, data for an unknown request or a request that has not started sending is an error, idle is reported only when no request has anything to send, and a request is forgotten exactly when its finished event has been reported.",
 ["inputs","histories"],"all histories of request, send and recv calls over any number (below 2^60) of requests",
 "the only test has a single request",
 ["bnl/http3/src/client/connection.cpp","bnl/http3/include/bnl/http3/client/connection.hpp","bnl/http3/include/bnl/http3/endpoint/generator.hpp"],
 [("request map","client::connection::{send,recv,process,request}")],
 [("requests_","id to sender/receiver","client/connection.hpp")],observe=["client::connection"])
p("C22","The server routes streams to the right exchange",
 "A server sends its control stream before any response data, creates an exchange when a bidirectional stream's first bytes arrive and delivers a stream's bytes only to that exchange (or to the control stream), leaving every other exchange as it was; unidirectional streams other than the control stream are ignored. A response handle is given exactly for live exchanges (otherwise stream closed), an exchange is dropped exactly when its response has been sent completely, idle is reported only when no response has anything to send, and processing a dropped exchange yields an error or nothing, never an abort.",
 ["inputs","histories"],"all histories of send, recv, response and event-generator calls over any number of streams",
 "the only test has a single exchange",
 ["bnl/http3/src/server/connection.cpp","bnl/http3/include/bnl/http3/server/connection.hpp","bnl/http3/include/bnl/http3/endpoint/generator.hpp"],
 [("request map","server::connection::{send,recv,process,response}")],
 [("requests_","id to sender/receiver","server/connection.hpp")],observe=["server::connection"])
p("C23","Message handles never dangle",
 "Whatever the order in which handles and the senders they control are created, moved, assigned over and destroyed, a handle operation either reaches the sender the handle was obtained for or reports invalid handle once that sender is gone or the handle was moved from or superseded; it never touches destroyed memory and never reaches a different sender. A handle's id always is the id of the sender it was obtained for.",
 ["histories"],"all histories of create, move-construct, move-assign and destroy over handles and senders",
 "tests move a handle once",
 [E+"request.cpp","bnl/http3/include/bnl/http3/endpoint/stream/request.hpp"],
 [("mutual back pointers","sender, sender::handle special members")],
 [("handle_","back pointer to the live handle","request.hpp"),("sender_","pointer to the live sender","request.hpp")],observe=["sender","sender::handle"])
p("C24","Bytes from the peer never crash or corrupt the process",
 "For every byte sequence handed to any decoder (integers, literals, Huffman strings, field lines, frames, header and body framing), decoding terminates with a value or an error: no failed assertion, no access outside a live object, no undefined shift or signed overflow, no exception or abort. Every loop makes progress: each iteration consumes at least one byte of the finite input or ends.",
 ["inputs"],"all byte sequences of all lengths, all sequence types",
 "tests feed well-formed input almost exclusively",
 [H+"varint/decode.cpp",H+"frame/decode.cpp",H+"qpack/decode.cpp",H+"qpack/prefix_int/decode.cpp",H+"qpack/literal/decode.cpp",H+"qpack/huffman/decode.cpp",H+"headers.cpp",H+"body.cpp"],
 [("bounds checks before access","every decode function")],observe=["all decode entry points"])
p("C25","Events and value types keep their payload when moved or copied",
 "Constructing, moving and destroying a connection event (settings, header, body, finished; stream data, stream error) preserves its type, stream id, flags and payload exactly, leaves no payload destroyed twice or leaked, and a moved-from event can still be destroyed. Views, header fields, addresses and endpoints report exactly the bytes they were built from, and equality of views, header fields, frames and addresses holds exactly when contents are equal.",
 ["inputs","histories"],"all payload values and contents",
 "tests only move events incidentally",
 ["bnl/base/src/http3/event.cpp","bnl/base/src/quic/event.cpp","bnl/base/src/http3/header.cpp","bnl/base/src/base/string_view.cpp","bnl/base/src/base/buffer_view.cpp","bnl/base/src/ip/address.cpp","bnl/base/src/ip/address/ipv4.cpp","bnl/base/src/ip/address/ipv6.cpp","bnl/base/src/ip/endpoint.cpp"],
 [("tagged unions","http3::event, quic::event, ip::address"),("content comparison","operator== of views, headers, frames, addresses")],observe=["event types","view types"])
p("C26","QUIC key derivation labels are encoded as TLS 1.3 requires",
 "For every secret, every label of at most 246 bytes (the labels in use have at most 11) and every output size below 65536, the information passed to key expansion is the TLS 1.3 structure: the size as a 16-bit big-endian number, the label with its \"tls13 \" prefix and one-byte length, and an empty context, within the bounds of its storage. The secrets and the parts of a packet protection key are derived under their own labels with the sizes of the cipher suite (key, nonce, hash and tag), from the secret given, and the result or the error of the derivation is passed on unchanged.",
 ["inputs"],"all labels of at most 246 bytes, all sizes below 65536, all suites; key expansion and extraction themselves come from the TLS library",
 "bnl-quic is not built or tested here",
 ["bnl/quic/src/crypto.cpp","bnl/quic/include/bnl/quic/crypto.hpp"],
 [("label encoding","quic::crypto::hkdf_expand_label")],observe=["quic::crypto"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
