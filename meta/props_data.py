T = 'VC generation covers all inputs; tests sample '
P('P01', 'Time points move by exactly the given duration',
  'Advancing a time point by a duration of any sign and any coarser-or-equal unit moves it by exactly that many microseconds, and subtracting two time points yields exactly that signed distance. Both hold modulo the 64-bit range, for every starting point, and leave the operands unchanged.',
  ['inputs'], 'all 64-bit base points and all durations in us, ms, s, min, h (32 and 64 bit counts)',
  'the 17 time-point tests use a handful of small offsets; wrap-around and negative values are reached for two constants only',
  ['src/clock/clock_timepoint.hpp'], [('advance', 'Timepoint::advance'), ('difference', 'Timepoint::operator-')],
  'unbounded: every obligation over symbolic 64-bit values')
P('P02', 'Time points have a wrap-safe order',
  'For any two time points not exactly half the range apart, exactly one of before, equal and after holds, it agrees with the sign of their difference, and it is unchanged when both are shifted by the same amount. A point moved forward by less than half the range is after the original even if the counter wrapped.',
  ['inputs'], 'all pairs (triples for transitivity) of 64-bit time points',
  'tests compare a few points near the epoch', ['src/clock/clock_timepoint.hpp'], [('order', 'Timepoint::is_after / is_before / operator==')],
  'unbounded: every obligation over symbolic 64-bit values')
P('P03', 'Converting a foreign clock loses nothing',
  'Advancing a time point from a finer or coarser duration consumes exactly the whole microseconds it contains, leaves the rest (of either sign) in the parameter, and a clock converter polled at any times reports the clock\'s own reading in whole microseconds without accumulating drift. Time reported from a monotonic clock never goes back.',
  ['inputs', 'histories'], 'all durations below 2^62 ticks of ns, 100 ns, us, ms, s, h; all poll histories by induction on the converter state',
  'tests poll once or twice with small constants; drift needs long histories', ['src/clock/clock_timepoint.hpp', 'src/clock/clock_std.hpp'],
  [('advance_from', 'Timepoint::advance_from'), ('converter', 'ChronoClockConverter::now')],
  'unbounded; history independence by an inductive step (the state equals that of a fresh converter at the same reading)', state=[('m_reminder', 'sub-microsecond part of the last reading')])
P('P04', 'STUN message type separates class and method exactly',
  'Splitting a 14-bit STUN message type into class and method and joining them again gives the same type; the class is exactly bits 4 and 8 and the method exactly the other twelve bits. Each depends on its own bits only, and the four named classes and the binding method have their standard numbers.',
  ['inputs'], 'all 2^16 message types and all class/method pairs',
  'tests exercise the binding method with two classes', ['src/stun/stun_class.hpp', 'src/stun/stun_method.hpp', 'src/stun/stun_method.cpp'],
  [('class', 'Class::from_msg_type / to_msg_type'), ('method', 'Method::from_msg_type / to_msg_type')], 'unbounded over the 16-bit domain')
P('P05', 'Attribute types and request handles keep their identity',
  'A STUN attribute type keeps the number it was made from, two types or request handles are equal exactly when their numbers are, and equal ones hash equally. A type is comprehension-required exactly when it is below 0x8000.',
  ['inputs'], 'all pairs of 16-bit attribute types and of handles', 'tests never look at the hash or at the boundary',
  ['src/stun/stun_attribute_type.hpp', 'src/stun/stun_client_udp_handle.hpp'], [('identity', 'AttributeType'), ('hash', 'std::hash<AttributeType>, HandleHash')], 'unbounded')
P('P06', 'Text character classes and case-insensitive comparison',
  'ALPHA, DIGIT and ice-char accept exactly the ASCII characters of their grammar, for all 256 byte values. Case-insensitive comparison holds exactly for strings of equal length whose bytes agree up to ASCII letter case, and is an equivalence.',
  ['inputs'], 'all bytes; all pairs of strings', 'tests reach these only through keywords such as udp and host',
  ['src/abnf/abnf.hpp', 'src/ice/ice_abnf.hpp'], [('classes', 'is_ALPHA, is_DIGIT, is_ice_char'), ('compare', 'eq_string')],
  'unbounded: strings of any length by the counted-loop rule; additionally every pair up to 7 bytes unrolled (labelled bounded)')

ICE = 'src/ice/candidate/'
P('P07', 'Component id, foundation and priority accept exactly their grammar',
  'A component id is accepted exactly from numbers 1 to 256 and from texts of one to three digits, a foundation exactly from 1 to 32 ice-chars, a priority exactly from numbers 1 to 2^31-1 and from texts of one to ten digits. The accepted value is the one written, two values are equal exactly when their contents are, and every rejection names its defect.',
  ['inputs'], 'all 32-bit numbers; all texts: accepted lengths one by one, all longer ones through a symbolic length',
  'tests try a few texts per field; boundaries and non-digit bytes at each position are not sampled',
  [ICE + 'ice_candidate_component_id.cpp', ICE + 'ice_candidate_foundation.cpp', ICE + 'ice_candidate_priority.cpp'],
  [('component', 'ComponentId::from_unsigned / from_string'), ('foundation', 'Foundation::from_string'), ('priority', 'Priority::from_uint32 / from_string')], 'unbounded')
P('P08', 'Candidate priority follows the standard formula',
  'A preference is accepted exactly in its range (type 0..126, local 0..65535, component 0..255), and the priority made of them is 2^24*type + 2^8*local + component, with the recommended component term 256 minus the component id. A priority exists exactly when that number is not zero, it fits 31 bits, and different triples get different priorities.',
  ['inputs'], 'all preference triples', 'tests compute one or two triples; overlap of the fields needs extreme values',
  [ICE + 'ice_candidate_preference.cpp'], [('formula', 'Preference::to_priority'), ('ranges', 'from_unsigned of the three preferences'), ('recommended', 'recommended_for')], 'unbounded')
P('P09', 'Candidate types and transports keep their names',
  'The four candidate type names and the transport name udp are recognised in any letter case, nothing else is, and each value prints its own name. Printing and parsing are inverse.',
  ['inputs'], 'all texts (up to the longest name byte by byte, longer ones through a symbolic length)', 'tests use the lower-case names only',
  [ICE + 'ice_candidate_type.cpp', ICE + 'ice_candidate_transport_type.cpp'], [('type', 'Type::from_string / to_string'), ('transport', 'TransportType::from_string')], 'unbounded')
P('P10', 'An SDP candidate line gives exactly its fields',
  'A candidate line whose tokens are all valid gives a candidate holding exactly these fields, related address and port when given, and every other name/value pair as an extension in order. A well-formed line with an unknown transport, address or type is reported as unsupported, and a line that is malformed, truncated or has a wrong keyword never gives a candidate.',
  ['inputs'], 'lines of up to 14 tokens with any one token arbitrary (up to 5 bytes), plus a native search over random grammars of lines',
  'tests hold a few hand-written lines', [ICE + 'ice_candidate_sdp.cpp', 'src/util/util_token_stream.cpp'], [('parser', 'parse_sdp_attr'), ('tokens', 'TokenStream')],
  'bounded: one token at a time symbolic, up to 5 bytes; field parsers are checked separately (P07, P09, P11, P12, P13)', level='other')
P('P11', 'Port text is accepted exactly when it denotes a port',
  'A port text is accepted exactly when it has one to five digits that denote at most 65535, and the port then has that value. Two ports are equal exactly when their numbers are.',
  ['inputs'], 'all texts (to five bytes byte by byte, longer ones through a symbolic length), all pairs of ports', 'tests try five texts',
  ['src/net/net_port.cpp', 'src/net/net_port.hpp'], [('parse', 'Port::from_string')], 'unbounded')
P('P12', 'Domain names: the longest well-formed prefix and nothing else',
  'Parsing a domain name takes exactly the longest prefix of the text that is a sequence of dot-separated labels starting and ending in a letter, digit or underscore, and hands back the rest unchanged. A whole text is accepted exactly when it is such a name, and the name keeps its text.',
  ['inputs'], 'all texts of any size with one label or two at their start; all texts up to 6 bytes with any number of labels; native search up to 255 bytes', 'tests use a dozen names',
  ['src/net/net_fqdn.cpp'], [('parse', 'Fqdn::parse'), ('whole', 'Fqdn::from_string')], 'one label of any size: proved (counted-loop rule, the label end as an iterate shared with the specification); two labels of any size; more labels in texts of up to 6 bytes')
P('P13', 'IP addresses keep their bytes and their text',
  'An address text is accepted as IPv4 or IPv6 exactly when the platform parser accepts that whole text, and the address then has the bytes that parser gives; printing gives the platform text of exactly these bytes. Addresses made from raw bytes keep them, need exactly 4 or 16, and are equal exactly when family and bytes are.',
  ['inputs'], 'all texts up to 60 bytes with any result of the platform parser; all addresses', 'tests parse a few texts; embedded zero bytes and over-long texts are not tried',
  ['src/net/ip/ip_address.cpp', 'src/net/ip/details/ip_address_tpl.hpp'], [('text', 'Address::from_string / to_string'), ('bytes', 'from_view')],
  'bytes, printing and equality unbounded; texts bounded to 60 bytes (the longest valid one has 45); platform functions assumed')
P('P14', 'XOR-mapped addresses hide and reveal exactly the address',
  'XOR-ing an address with the magic cookie and transaction id and back gives the same address and family, for every address and id; the hidden bytes are those of the standard. A value whose length does not match its family is refused.',
  ['inputs'], 'all addresses and transaction ids, all byte strings', 'tests use the two RFC vectors',
  ['src/stun/stun_address.cpp'], [('xor', 'XoredAddress::from_address / to_address'), ('bytes', 'XoredAddress::from_view')], 'unbounded')
P('P15', 'Address attributes mean what is on the wire',
  'A mapped, alternate-server or XOR-mapped address attribute is accepted exactly when its bytes are a well-formed value of that attribute and then holds the port and address they say; otherwise exactly one failure is counted under its own reason. Building one writes the standard bytes and parsing them gives it back.',
  ['inputs'], 'all values of any length, all addresses and ports', 'tests use well-formed vectors only',
  ['src/stun/stun_attribute.cpp', 'src/stun/stun_address.cpp'], [('mapped', 'MappedAddressAttribute'), ('alternate', 'AlternateServerAttribute'), ('xor', 'XorMappedAddressAttribute')], 'unbounded')
P('P16', 'Other attribute values mean what is on the wire',
  'Error codes, unknown-attribute lists, texts, digests and fixed-size numbers are accepted exactly when their bytes are well formed and then hold exactly the value the bytes say; a refused value is counted once under its own reason. Each attribute type number is parsed and built as the attribute of that number, and unknown types are kept as unknown.',
  ['inputs'], 'all values of any length for each of the attribute kinds, all 2^16 types', 'tests use one vector per attribute',
  ['src/stun/stun_attribute.cpp'], [('error code', 'ErrorCodeAttribute'), ('unknown', 'UnknownAttributesAttribute'), ('dispatch', 'Attribute::parse')],
  'unbounded, lists of unknown attribute types up to the largest that fits a message included')
P('P17', 'CRC-32 and the fingerprint are those of the standard',
  'The checksum of a text of any length is the CRC-32 of ISO 3309 and V.42, whether the text is given in one piece or several and wherever it lies. Hence any change of one byte changes the fingerprint of a message.',
  ['inputs'], 'all texts, by induction on the length; three pieces of any sizes', 'tests compute the checksum of two messages',
  ['src/stun/details/stun_fingerprint.cpp'], [('table and loop', 'stun::crc32')], 'unbounded in bytes; up to three pieces')
P('P18', 'Packets are taken for STUN messages exactly by their header',
  'A packet is a STUN message only if it has a full header with two zero top bits, a length that is a multiple of four and that of the packet, and the magic cookie unless it is a request of the older standard. Class, method and transaction id are then the ones the header says; a refused packet is counted once under one reason, and building a header writes the standard bytes.',
  ['inputs'], 'all packets up to 70000 bytes for refusal, all headers for acceptance and building', 'tests use a few captured packets and mutate one field at a time',
  ['src/stun/stun_message.cpp', 'src/stun/stun_header.cpp'], [('parse', 'Message::parse, Header::parse'), ('build', 'Header::build')], 'unbounded')
P('P19', 'Every packet is parsed safely to one counted outcome',
  'Parsing any packet ends without reading outside it and counts exactly one outcome: success, or an error under exactly one reason. The attributes taken are those laid out in the packet, each at its place with its stated length and padding, and an attribute that does not fit, a wrong fingerprint or a fingerprint that is not last refuses the packet.',
  ['inputs'], 'all packets of up to three attributes of any type and of sizes up to 20000 bytes', 'tests use captured packets; sizes and orders are not varied together',
  ['src/stun/stun_message.cpp', 'src/stun/stun_attribute.cpp'], [('walk', 'Message::parse'), ('count', 'ParseStat')],
  'bounded: three attributes in a packet; sizes, types and contents unbounded; the attribute parser by its own checks (P15, P16)', level='other')
P('P20', 'A message answers for each attribute with the first one present',
  'Asking a message for an attribute gives the value of the first attribute of that type, or nothing if there is none; attributes behind MESSAGE-INTEGRITY other than FINGERPRINT are ignored. The unknown attributes a message reports are exactly those of its unknown types that require comprehension, in order.',
  ['inputs'], 'all attribute types and values, duplicates, orders of two or three attributes', 'tests never repeat an attribute and put none behind MESSAGE-INTEGRITY',
  ['src/stun/stun_attribute_set.cpp', 'src/stun/stun_message.cpp'], [('accessors', 'AttributeSet'), ('order', 'Message::parse')],
  'accessors over all values; duplicates and unknown attributes bounded to two or three attributes in a message')
P('P21', 'HMAC and passwords follow RFC 2104 and STUN for every key and text',
  'The message digest is the hash of the outer key followed by the hash of the inner key and the text, for keys of any length and texts in any pieces; keys longer than one block are hashed first. A short-term password is the key with exactly its text, and a failing hash is reported, never replaced by some digest.',
  ['inputs', 'fault_sequences'], 'all keys and texts, every hash call failing or not, every OpenSSL call failing or not', 'tests use the RFC vectors and never let a hash fail',
  ['src/crypto/crypto_hmac.hpp', 'src/crypto/openssl/openssl_hash.cpp', 'src/stun/stun_password.cpp'], [('hmac', 'crypto::hmac::digest'), ('password', 'Password::short_term'), ('libcrypto', 'openssl digest wrapper')],
  'keys and texts unbounded, up to three pieces; libcrypto itself assumed to compute SHA-1 and MD5 of what it is fed')
P('P22', 'A signature is checked over exactly the protected bytes',
  'A message is valid exactly when its MESSAGE-INTEGRITY equals the digest, under the password, of everything before that attribute with the length field set as if the message ended with it. No byte behind it matters, every byte before it does, and a message without the attribute is neither valid nor invalid.',
  ['inputs'], 'all messages of up to 64000 protected bytes, any bytes behind, any password, any stated digest', 'tests check two captured messages',
  ['src/stun/stun_message.cpp', 'src/stun/stun_password.cpp'], [('check', 'Message::is_valid'), ('interval', 'Message::parse')], 'unbounded; hash uninterpreted (P21)')
P('P23', 'Messages are built byte for byte and parse back to themselves',
  'Building a message writes its header and every attribute at its place with its type, length, value and padding, then the digest of everything before it if it is signed and the checksum if it has a fingerprint; the stated length is that of the bytes. Parsing these bytes gives the same message, and one too long for its length fields is refused.',
  ['inputs'], 'all messages with one attribute of any kind and length, alone or signed, with or without fingerprint; pairs of attributes', 'tests build a handful of messages and compare with vectors',
  ['src/stun/stun_message.cpp', 'src/stun/stun_attribute.cpp', 'src/stun/stun_header.cpp'], [('build', 'Message::build'), ('round trip', 'Message::parse')],
  'lengths and values unbounded; one attribute besides signature and fingerprint, two in the bounded contracts; checksum and hash by their contracts (P17, P21)')
P('P24', 'The stateless server answers each packet as the standard says',
  'Only well-formed requests are answered, with their own transaction id, method and mode: 420 listing the attributes not understood, else 400 when only one of user and signature is there, else 401 for an unknown user or a wrong digest, else success with exactly the sender’s address. A response is signed with the user’s password exactly when the request was proved to come from that user, and no request changes the answer to a later one.',
  ['inputs', 'fault_sequences'], 'all senders, classes, methods, users, passwords, digests and types of unknown attributes, hashes failing or not', 'tests use one sender and one packet per outcome',
  ['src/stun/stun_server_stateless.cpp'], [('process', 'Stateless::process'), ('users', 'Stateless::add_user')],
  'values unbounded; requests with up to one unknown attribute besides user and signature (three in a bounded contract), users with three-byte names')
P('P25', 'Each client request has one outcome of its own and nothing after it',
  'Whatever the order of calls and responses, each request of a client is reported finished exactly once, under its own handle, and nothing is sent for it afterwards. A response to a finished or unknown request is refused, and a request nobody answers ends by itself after all its retransmissions.',
  ['histories', 'schedules'], 'any single call on one request in any state and on two requests in any states; histories of three further calls on one request or two calls on two; all intervals and times; longer ones sampled', 'tests follow a dozen fixed scenarios',
  ['src/stun/stun_client_udp.cpp'], [('events', 'ClientUDP::next'), ('responses', 'ClientUDP::response / handle_response'), ('create', 'ClientUDP::create')],
  'every call on one request in any state of its life (hence every history of one request without server error pauses) proved; two requests in any states, pauses and whole histories bounded', level='other',
  state=[('m_tmap', 'open requests'), ('m_tid_to_handle', 'their transaction ids'), ('m_effects', 'outcomes to be taken'), ('m_timeline', 'due retransmissions')])
P('P26', 'Requests are repeated on the schedule of the standard',
  'A request is sent at once and again after the timeout of its path, which doubles each time up to the configured maximum; after the configured number of transmissions the client waits the configured multiple of the first timeout and gives up. A server error makes it wait the server error timeout and repeat the request at most as often as configured, and each sleep ends exactly at the next thing due.',
  ['histories', 'schedules'], 'any number of retransmissions so far with any last interval, all times, counts and multiples', 'tests use the default configuration at exact times',
  ['src/stun/stun_client_udp.cpp'], [('interval', 'RetransmitAlgo::next'), ('server error', 'ClientUDP::handle_response'), ('sleep', 'ClientUDP::next')],
  'one step from any state of the schedule (hence every step) unbounded; whole schedules of up to seven transmissions and two requests at a time bounded',
  state=[('m_rtx_count', 'retransmissions so far'), ('m_last_timeout', 'last interval')])
P('P27', 'Client requests and outcomes say what was asked and answered',
  'A request carries exactly the attributes asked for, with user and signature exactly when asked for and fingerprint as configured. A success response gives the address in it, an error its code and reason or the other server, unknown required attributes are reported; when a signature was asked for, a response without one or with a wrong one is refused and the request goes on.',
  ['inputs', 'fault_sequences'], 'all addresses, codes, reasons, attribute types, passwords and digests; hashes failing or not', 'tests use one response of each kind',
  ['src/stun/stun_client_udp.cpp'], [('response', 'ClientUDP::response / handle_response'), ('request', 'ClientUDP::create')],
  'values unbounded; packets too short to be messages and pairs of unknown attributes bounded')
P('P28', 'Retransmission timeouts follow measurement and backoff per path',
  'The timeout of a path is SRTT + 4 RTTVAR of RFC 6298 over the round trips measured on it, the last backoff if one came later, or the initial one if nothing is known. Reports on one path never change another, and what is older than the history is forgotten before it is used.',
  ['histories', 'inputs'], 'one report in any state of two paths, all durations and times', 'tests use a few round numbers',
  ['src/stun/details/stun_client_udp_rto.cpp'], [('smooth', 'ClientUDPRtoCalculator::new_rtt'), ('backoff', 'backoff'), ('forget', 'clear_expired'), ('value', 'rto')],
  'one step from any state of two paths (hence every step) unbounded in durations; more than two paths only natively',
  state=[('m_by_path', 'what is known of each path'), ('m_list', 'paths by last report')])
P('P29', 'RTP packets are accepted exactly when well formed',
  'An RTP packet is accepted exactly when version, source list, extension, known payload type and padding are consistent with its length, and every header field, extension range and payload range is the one the bytes say, inside the packet. Each call counts exactly one outcome, with each error under exactly one reason.',
  ['inputs'], 'all packets of up to 400000 bytes and all registered payload types', 'tests parse fewer than ten packets',
  ['src/rtp/rtp_packet.cpp', 'src/rtp/rtp_header.hpp'], [('parse', 'Packet::parse'), ('count', 'ParseStat')], 'unbounded (packet length symbolic, larger than the largest header)')
P('P30', 'RTP field values and the payload map keep what they were given',
  'A payload type exists exactly for 0 to 127 and keeps its number; SSRC, sequence number, timestamp, clock rate and marker keep theirs. The payload map knows a rate exactly for the mapped types and it is the rate mapped for that type.',
  ['inputs'], 'all values; maps with up to three entries', 'one test builds one timestamp',
  ['src/rtp/rtp_payload_map.cpp', 'src/rtp/rtp_payload_type.hpp', 'src/rtp/rtp_timestamp.hpp'], [('map', 'PayloadMap::rtp_clock_rate'), ('type', 'PayloadType::from_uint8')], 'unbounded over values; maps of three entries')
P('P31', 'The intrusive list is a sequence',
  'Each operation on an intrusive list, from any state, changes the sequence of its items exactly as the operation on a sequence would: linking, unlinking, removal, moving a list and destroying links or lists. Items outside the operation keep their place, and no link dangles.',
  ['histories'], 'one step from every state of two lists with together up to 5 items (so all histories of such states), plus native random histories', 'tests push and pop three items',
  ['src/util/util_intrusive_list.hpp'], [('list', 'IntrusiveList'), ('link', 'Link')], 'bounded: lists of together up to 5 items; a frame obligation shows links further away are not touched', level='other',
  state=[('m_next / m_prev', 'ring of links')])
P('P32', 'Equal keys hash equally and every byte of a key counts',
  'Equal addresses, paths, texts and transaction ids always have equal hashes, wherever they are stored and whichever hasher object of the same seed is used. Two keys of one length that differ inside one group of eight bytes, or two seeds that differ, never give the same hash.',
  ['inputs'], 'all addresses, paths and transaction ids; byte blocks up to 40 bytes with any seed', 'tests hash a handful of keys',
  ['src/util/util_hash_murmur.cpp', 'src/net/ip/ip_address_hash.cpp', 'src/net/net_path_hash.hpp', 'src/stun/stun_transaction_id_hash.hpp'],
  [('murmur', 'util::hash::murmur'), ('path', 'net::PathHash'), ('id', 'MurmurTransactionIdHash')],
  'addresses, paths and ids unbounded; raw blocks unbounded for equality and seeds, bounded to 40 bytes for differing keys, texts to 20; a path into an IPv4 end whose other end differs is sampled natively')
P('P33', 'Token streams and text splitting lose and invent nothing',
  'A token stream over a text hands out every token once, in order, and then only failures; splitting at a separator gives exactly the parts between separators, and a prefix is removed exactly when it is there. Flattening containers keeps every element in order.',
  ['inputs', 'histories'], 'texts of any length for the single steps, all histories of up to four reads of up to three tokens', 'tests split a few short texts',
  ['src/util/util_token_stream.cpp', 'src/util/util_string_view.hpp', 'src/util/util_flat.hpp'], [('stream', 'TokenStream'), ('split', 'string_view::split'), ('flat', 'util::flatten')],
  'single steps unbounded; splitting into all parts, read histories and flattening bounded (texts of 6 bytes, 3 tokens)')
P('P34', 'Every error keeps its own code, number and meaning',
  'Each library error converts to an error code of its own component with its own number, only the success value is no error, and distinct errors of a component have distinct non-empty descriptions. Codes of different components never compare equal, and unknown numbers are described without failing.',
  ['inputs'], 'all errors of all six components and all 2^32 numbers', 'no test compares error codes across components',
  ['src/net/net_error.cpp', 'src/rtp/rtp_error.cpp', 'src/stun/stun_error.cpp', 'src/util/util_error_code.cpp'], [('category', '*_error_category'), ('make', 'make_error_code')], 'unbounded')
P('P35', 'Typed values keep, compare and copy what they hold',
  'A typed flag, tagged number or text, counter or endpoint returns exactly the value it was made from and compares equal exactly when the values are equal. A counter grows by exactly one for each count.',
  ['inputs'], 'all values; texts up to the size of a small string', 'tests use one or two values',
  ['src/util/util_typed_bool.hpp', 'src/util/util_tagged_type.hpp', 'src/stat/stat_counter.hpp', 'src/net/net_endpoint.hpp'], [('flag', 'TypedBool'), ('tag', 'TaggedType'), ('count', 'Counter'), ('endpoint', 'UdpEndpoint / TcpEndpoint')], 'unbounded over values')
