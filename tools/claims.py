claim('C01', 'proof', 'Every function of varint encoding is verified for all 64-bit values.')
claim('C02', 'proof', 'varint::decode is verified for all four sequence types and every content.')
claim('C03', 'proof', 'Prefix integer coding is verified for all values, prefixes 1..7 and every byte sequence; the decode loop by an inferred and checked invariant.')
claim('C04', 'proof', 'Huffman encoding (both entry points, size query) is verified for all strings and destinations, the code tables entry by entry against RFC 7541 Appendix B.')
claim('C05', 'proof', 'Huffman decoding is verified for all four sequence types, all contents and stated lengths; the decode automaton tables entry by entry.')
claim('C06', 'proof', 'Literal encoding and decoding are verified over the contracts of prefix integers and Huffman strings, all of which are verified themselves.')
claim('C07', 'proof', 'Encoder (size query and both encoders) and decoder are verified case by case over the 99 entries of RFC 9204 Appendix A and for every other name and value; the 64-bit hash is left open for anything but the table strings, so nothing rests on its values being distinct.')
claim('C08', 'proof', 'Each call of the encoder and of the decoder is verified from every state of the object, for all names, values and contents: prefix bytes once, line bytes, sizes, counts and refusal of upper-case names. The round trip follows from both sides being verified against one specification of the standard; that last step is checked natively, not by the prover.')
claim('C09', 'proof', 'decoder::decode is verified for buffer and buffers, every content and every object state, instruction class by instruction class.')
claim('C10', 'proof', 'Size query and both encoders are verified for all nine frame types and all field values.')
claim('C11', 'proof', 'frame::decode is verified for all four sequence types and all contents, over the contract of the decoder of a single frame, which is itself verified per frame type; both loops by inferred and checked invariants.')
claim('C12', 'proof', 'frame::peek and frame::decode are verified to skip exactly the complete frames of unknown type, for all contents.')
claim('C16', 'proof', 'Each call of the body encoder and decoder is verified from every state of the object, for all chunk contents, against a step of the specification; arbitrary histories follow by induction over calls, the state sets being closed under every call.')
claim('C17', 'proof', 'Each call of the headers encoder and decoder is verified from every state of the object, for all fields and contents, against a step of the specification, over the contracts of frames and field lines; arbitrary histories follow by induction over calls.')
claim('C18', 'proof', 'Every call on a request sender (fields, start, body, end, send) is verified from every state of the object, its two encoders included, against a step of the specification; arbitrary interleavings follow by induction over calls, the state sets being closed under every call and containing the new object.')
claim('C19', 'proof', 'receiver::recv, start and process of both roles are verified from every state of the object and for every queued content and end mark, against a step of the specification; arbitrary chunkings and interleavings follow by induction over calls.')
claim('C20', 'proof', 'Sender and receivers of both roles are verified from every state of the object and for every queued content.')
claim('C15', 'proof', 'Both lookahead types are verified for every sequence and every reachable lookahead (any position, any nesting: a copy only keeps the sum of the positions), over the contracts of buffer and buffers.')
claim('C13', 'proof', 'Every operation of a buffer is verified from every representation of the buffers involved (empty, every inline range, any range of a heap block with any reference count), for all contents and sizes; arbitrary histories follow by induction over operations (the reference count is the number of live buffers of a block). Concatenation is verified for inline operands at both ends of their store.')
claim('C25', 'proof', 'Construction, move and destruction of every kind of event, the accessors and comparisons of views, header fields, addresses and endpoints, and frame equality are verified for all contents.')
claim('C26', 'proof', 'The label encoding and every derivation are verified for all secrets, labels of at most 246 bytes, output sizes below 65536 and cipher suites, over assumed contracts of the key expansion and extraction of the TLS library (any bytes or any error).')
claim('C21', 'proof', 'Every call of a client connection (construction, request, send, recv and its event generator) is verified from every state of the connection over an abstract map with any number of requests, on the contracts of the streams established by C18 to C20; the loops over the map by a cut at the iterator. std::map itself is assumed. Arbitrary histories follow by induction over calls.')
claim('C22', 'proof', 'Every call of a server connection (construction, response, send, recv and its event generator) is verified from every state of the connection over an abstract map with any number of exchanges, on the contracts of the streams established by C18 to C20; the loops over the map by a cut at the iterator. std::map itself is assumed. Arbitrary histories follow by induction over calls.')
claim('C23', 'proof', 'Every special member and every operation of senders and handles is verified from every configuration of the mutual links of the objects involved; the link invariant holds initially and is kept by each of them, so arbitrary histories follow by induction.')
claim('C24', 'proof', 'Every decoder, and the parts of the streams that process peer bytes, are executed symbolically for all contents: no reachable assertion, trap, out-of-bounds or dead access, undefined shift or signed overflow, and a termination measure for every loop that is cut. The quick tier leaves four groups of slow units (frame::decode, the settings payload, name references) to the checks of C08, C09 and C11, where they run with the same safety obligations, and to the thorough tier.')
claim('C14', 'proof', 'Every operation of a chunk list (size, empty, indexing, slice, consume, push, pop, front, back) is verified over a list of any number of chunks of any sizes, empty ones included, its loops by inferred and checked invariants. std::list itself (iteration, erase, emplace_back) is assumed; arbitrary histories follow by induction over operations, because every operation is verified from an arbitrary list.')
