#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it after editing."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Base64 encoding is RFC 4648 and decodes back to the original bytes",
 "For every byte string, Base64 encoding succeeds, yields exactly the RFC 4648 standard-alphabet, padded encoding, and decoding that text yields the original bytes. This also holds when the input or the intermediate text is longer than the coder's internal working buffers.",
 ["inputs"], "all byte strings (all lengths modulo 3, all byte values, lengths around internal chunk edges)",
 "Tests encode a handful of fixed strings, random printable strings and two files; a table or padding mistake for a rare byte triple or a chunk edge stays unseen.",
 ["fly/coders/base64/base64_coder.cpp", "fly/coders/base64/base64_coder.hpp", "fly/coders/coder.cpp"],
 [("three-byte to four-symbol packing and padding", "Base64Coder::encode_internal / encode_chunk"), ("four-symbol to three-byte unpacking", "Base64Coder::decode_internal / decode_chunk")],
 ["Encoder::encode_string", "Decoder::decode_string"])
prop("C02", "Base64 decoding rejects malformed text and never reads out of bounds",
 "Decoding an arbitrary byte string either succeeds, in which case the text is a sequence of four-symbol groups over the standard alphabet with '=' only as the final one or two symbols, and the output is exactly the bytes those symbols denote, or it fails. No input, whatever its byte values, causes an out-of-bounds access.",
 ["inputs"], "all byte strings, including bytes outside 7-bit ASCII",
 "Tests try a few invalid strings of ASCII symbols; never bytes of 0x80 and above, padding in odd places, or truncated groups systematically.",
 ["fly/coders/base64/base64_coder.cpp"],
 [("symbol table lookup and invalid-symbol check", "Base64Coder::decode_internal / decode_chunk"), ("padding handling", "Base64Coder::decode_internal")],
 ["Decoder::decode_string"])
prop("C03", "Bit streams read back exactly the bits that were written",
 "For every sequence of single-bit, byte, 16-bit and arbitrary-width (0 to 64 bits) writes followed by finish, a reader over the produced bytes that uses the same widths reads back the same values in order and then reports the stream fully consumed. Bits of a value above the requested width never reach the stream, and reading more bits than remain reports fewer bits rather than inventing data.",
 ["inputs", "histories"], "all sequences of write/read/peek/discard operations and all values",
 "Tests write a few fixed words; widths that straddle the 64-bit staging buffer in particular ways, and full 64-bit writes at every offset, are not covered.",
 ["fly/types/bit_stream/bit_stream_writer.cpp", "fly/types/bit_stream/bit_stream_writer.hpp", "fly/types/bit_stream/bit_stream_reader.cpp", "fly/types/bit_stream/bit_stream_reader.hpp", "fly/types/bit_stream/detail/bit_stream.hpp"],
 [("staging buffer flush when full", "BitStreamWriter::write_bits"), ("refill and discard", "BitStreamReader::peek_bits/read_bits/discard_bits"), ("header with count of unused final bits", "BitStreamWriter::finish, BitStreamReader constructor")],
 ["bytes in the output stream", "values returned by the reader"])
prop("C04", "Bit stream reader is truthful on arbitrary, truncated or corrupt input",
 "Given any byte string as its input, a bit stream reader never crashes: it yields the payload bits described by a valid header in order and nothing beyond them, reports fewer bits than requested at the end, and rejects a stream whose header magic is wrong. A writer whose output stream fails reports failure.",
 ["inputs", "fault_sequences"], "all byte strings as streams; all points at which the stream ends",
 "Tests use three hand-written corrupt streams.",
 ["fly/types/bit_stream/bit_stream_reader.cpp", "fly/types/bit_stream/bit_stream_reader.hpp"],
 [("header validation and remainder handling", "BitStreamReader constructor, refill_buffer"), ("underflow reporting", "BitStreamReader::peek_bits / discard_bits")],
 ["BitStreamReader public API"])
prop("C05", "Huffman coding is lossless for every input and configuration",
 "Whenever Huffman encoding of a byte string reports success, decoding the result reports success and yields the identical byte string, for every permitted chunk size and code length limit. The produced code is prefix-free and no code exceeds the configured length limit.",
 ["inputs", "configurations"], "all byte strings, chunk sizes and code length limits",
 "Tests use a few strings and files under default-like configurations; skewed frequencies that force length limiting, chunk edges and single-symbol chunks are sampled at best.",
 ["fly/coders/huffman/huffman_encoder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/huffman/types.cpp", "fly/coders/huffman/huffman_decoder.hpp", "fly/coders/huffman/huffman_encoder.hpp"],
 [("tree, length limiting and canonical form", "HuffmanEncoder::create_tree/create_codes/limit_code_lengths/convert_to_canonical_form"), ("code table header", "HuffmanEncoder::encode_codes / HuffmanDecoder::decode_codes"), ("prefix table lookup", "HuffmanDecoder::convert_to_prefix_table/decode_symbols")],
 ["Encoder::encode_string", "Decoder::decode_string"])
prop("C06", "Huffman decoder is memory-safe and terminates on arbitrary input",
 "For every byte string presented as a Huffman stream, decoding terminates, and either fails or produces output no longer than the announced chunk size per chunk, without any out-of-bounds or uninitialised access. A stream that ends in the middle of the header, a code table or a symbol, or announces an impossible code table, is reported as an error.",
 ["inputs", "fault_sequences"], "all byte strings, including corruptions and truncations of valid streams",
 "Tests have under ten hand-made bad streams.",
 ["fly/coders/huffman/huffman_decoder.cpp", "fly/coders/huffman/types.cpp"],
 [("header checks", "HuffmanDecoder::decode_header"), ("code table checks", "HuffmanDecoder::decode_codes"), ("prefix table construction", "HuffmanDecoder::convert_to_prefix_table"), ("symbol loop", "HuffmanDecoder::decode_symbols")],
 ["Decoder::decode_string"])
prop("C07", "Unicode validation accepts exactly the well-formed strings",
 "For UTF-8, UTF-16 and UTF-32 strings, validation and codepoint decoding succeed exactly on sequences that are well formed by the Unicode standard (no overlong forms, surrogates, out-of-range values, stray or missing continuation units), yielding the right codepoint and advancing past exactly its code units. Encoding succeeds exactly for Unicode scalar values and yields their standard encoding.",
 ["inputs"], "all code unit sequences up to four units and all 32-bit codepoints",
 "Tests probe boundary values; the space of 2^32 UTF-8 sequences is not covered.",
 ["fly/types/string/detail/unicode.hpp", "fly/types/string/string.hpp"],
 [("lead/continuation classification and range checks", "BasicUnicode::codepoint_from_string / validate_codepoint"), ("encoding", "BasicUnicode::codepoint_to_string")],
 ["BasicString::validate", "BasicString::decode_codepoint", "BasicString::encode_codepoint"])
prop("C08", "Converting between UTF-8, UTF-16 and UTF-32 is lossless",
 "Converting a string to another Unicode encoding succeeds exactly when the source is well formed, the result is well formed and denotes the same codepoint sequence, and converting back restores the source. It holds for every pair of encodings.",
 ["inputs"], "all strings of up to a few codepoints, all encoding pairs",
 "Tests convert fixed literals.",
 ["fly/types/string/detail/unicode.hpp", "fly/types/string/detail/converter.hpp"],
 [("decode then re-encode loop", "BasicUnicode::convert_encoding"), ("string conversion dispatch", "BasicString::convert")],
 ["BasicString::convert"])
prop("C09", "Unicode escaping follows its documented form and unescape inverts it",
 "Escaping leaves printable ASCII unchanged and turns every other codepoint into the documented \\u or \\U form, for either prefix. Unescaping an escaped string restores it (for strings without backslashes of their own), accepts exactly the documented forms, and fails without reading past the end on truncated or malformed escapes and on unpaired surrogates.",
 ["inputs"], "all codepoints, both prefixes, all short escape texts",
 "Tests cover selected codepoints and malformed escapes.",
 ["fly/types/string/detail/unicode.hpp", "fly/types/string/string.hpp"],
 [("escape selection", "BasicUnicode::escape_codepoint"), ("unescape of paired surrogates", "BasicUnicode::unescape_codepoint")],
 ["BasicString::escape_all_codepoints", "BasicString::unescape_all_codepoints"])
prop("C10", "JSON parser accepts exactly the JSON grammar",
 "With no optional features enabled, parsing a text succeeds exactly when the text is one JSON object or array (any JSON value when any type is enabled) by RFC 8259: well-formed Unicode, no trailing data, every number in JSON number syntax and within the range of the library's number types. The value produced is the one the text denotes; no input that nests no deeper than the stack allows makes the parser crash or throw.",
 ["inputs"], "all byte strings",
 "Tests run a list of accepted and rejected documents; short byte strings in between are not covered.",
 ["fly/parser/json_parser.cpp", "fly/parser/json_parser.hpp", "fly/parser/parser.cpp", "fly/types/json/json.cpp"],
 [("recursive descent over tokens", "JsonParser::parse_value/parse_object/parse_array/parse_quoted_string"), ("number syntax", "JsonParser::validate_number"), ("end of input check", "JsonParser::parse_internal"), ("string content validation", "Json::validate_string")],
 ["JsonParser::parse_string"])
prop("C11", "JSON parser features allow exactly their documented extensions",
 "Allowing comments makes exactly well-formed // and /* */ comments acceptable wherever whitespace is, allowing a trailing comma makes exactly one comma before a closing bracket or brace of a non-empty container acceptable, and enabling any combination never changes the result for text that is already valid JSON. Unterminated or malformed comments, comments when disabled and repeated commas are rejected.",
 ["inputs", "configurations"], "all byte strings under all feature combinations",
 "Tests use a handful of documents per feature.",
 ["fly/parser/json_parser.cpp", "fly/parser/json_parser.hpp"],
 [("comment skipping", "JsonParser::consume_whitespace_and_comments/consume_comment"), ("trailing comma", "JsonParser::consume_comma")],
 ["JsonParser::parse_string"])
prop("C12", "JSON values survive serialize-then-parse",
 "For every JSON value built from null, booleans, 64-bit integers, valid strings, and nested arrays and objects of these, serializing it and parsing the text succeeds and gives an equal value of the same types. The serialized text is itself valid JSON, whatever characters the strings and keys contain.",
 ["inputs"], "all values up to a small size: all strings of a few bytes, all integers, nested containers",
 "Tests serialize fixed values; control characters, quotes and non-ASCII codepoints in every position are not covered.",
 ["fly/types/json/json.cpp", "fly/types/json/json.hpp", "fly/parser/json_parser.cpp"],
 [("string escaping on output", "Json::serialize, serialize_string"), ("string unescaping on input", "Json::validate_string/read_escaped_character"), ("number output", "Json::serialize")],
 ["Json::serialize", "JsonParser::parse_string"])
prop("C13", "JSON strings are always valid Unicode, or construction throws",
 "A JSON string (or object key) constructed from any text either holds valid Unicode obtained by decoding the JSON escapes in that text, or construction throws a JSON exception. Text with bad escapes, unpaired surrogate escapes, invalid UTF-8 or unescaped control characters never becomes a JSON string.",
 ["inputs"], "all byte strings of a few bytes",
 "Tests use a list of selected strings.",
 ["fly/types/json/json.cpp"],
 [("string validation", "Json::validate_string/validate_character/read_escaped_character")],
 ["Json(string)"])
prop("C14", "JSON comparison is consistent",
 "For all JSON values without NaN, equality is reflexive and symmetric and != is its negation; integers of any signedness compare by numeric value, and numbers of which one is floating point compare as floating point, equal when they differ by no more than the machine epsilon. <= means < or ==, > is the negation of <=, >= means > or ==, and values of different kinds are never equal and are ordered by kind.",
 ["inputs"], "all pairs of JSON values of all types, all 64-bit numbers",
 "Tests compare fixed pairs.",
 ["fly/types/json/json.cpp", "fly/types/json/json.hpp"],
 [("typed comparison visitors", "operator==, operator< in json.cpp")],
 ["Json operators"])
prop("C15", "JSON container operations behave like the containers they wrap",
 "Any sequence of inserts, appends, erasures, lookups, resizes, swaps and iteration on JSON objects, arrays and strings has the effect it has on an ordered map, a vector and a string. An operation that does not apply to the value's type, or an index or key that does not exist, throws a JSON exception and leaves the value unchanged.",
 ["histories", "inputs"], "all operation sequences up to a few steps over all value types",
 "Tests run each operation on fixed values.",
 ["fly/types/json/json.cpp", "fly/types/json/json.hpp", "fly/types/json/detail/json_iterator.hpp"],
 [("type dispatch and exceptions", "Json::at/operator[]/insert/erase/push_back/...")],
 ["Json public API"])
prop("C16", "JSON conversions to C++ types never give a wrong value",
 "Converting a JSON value to a number, boolean, string or array gives the value it holds (numbers as by the language's conversion of the held number, where that is defined; numeric strings as the number they denote exactly, or an exception when they denote none or one out of range), and throws a JSON exception when the conversion does not apply.",
 ["inputs"], "all numbers, short numeric strings and target types",
 "Tests convert selected values.",
 ["fly/types/json/json.hpp", "fly/types/json/json.cpp", "fly/types/json/detail/array_util.hpp"],
 [("conversion operators", "Json::operator T"), ("string to number", "BasicString::convert")],
 ["explicit conversion operators of Json"])
prop("C17", "INI parser reads exactly the documented sections and assignments",
 "Parsing INI text succeeds exactly when every line, after trimming, is blank, a comment, a section header (a non-empty, unquoted name in brackets) or, after a header, an assignment: a name before the first '=' and a value after it, both non-empty when trimmed, the name unquoted, quotes around the value balanced; at least one header is required. The result maps each section to exactly its assignments, a balanced pair of quotes removed from each value, later sections and assignments of the same name replacing earlier ones. No input makes the parser crash or throw.",
 ["inputs"], "all byte strings",
 "Tests use around twenty documents.",
 ["fly/parser/ini_parser.cpp", "fly/parser/ini_parser.hpp", "fly/parser/parser.cpp"],
 [("line classification", "IniParser::parse_internal/on_section/on_value"), ("trim_value", "IniParser::trim_value")],
 ["IniParser::parse_string"])
prop("C18", "String splitting, trimming, joining and replacing match their definition",
 "For every string, trimming removes exactly the leading and trailing whitespace; splitting yields in order the non-empty pieces between delimiters, or, limited to a count, the last piece holds the remaining non-empty pieces separated by the delimiter; joining then splitting non-empty, delimiter-free pieces restores them. Replacing all instances of a substring replaces exactly the non-overlapping occurrences found from left to right, for any replacement, and every operation terminates.",
 ["inputs"], "all short strings, delimiters, counts and search strings",
 "Tests use fixed examples.",
 ["fly/types/string/string.hpp"],
 [("find/erase loops", "BasicString::split/trim/replace_all/remove_all/join")],
 ["BasicString static functions"])
prop("C19", "Wildcard matching matches exactly the strings the pattern denotes",
 "A non-empty wildcard pattern matches a string exactly when replacing each asterisk by some (possibly empty) string gives that string; the empty pattern matches nothing. A pattern without an asterisk matches only itself.",
 ["inputs"], "all strings and patterns of a few characters",
 "Tests use fixed pairs; overlapping segments and repeated prefixes are not covered.",
 ["fly/types/string/string.hpp"],
 [("segment search", "BasicString::wildcard_match")],
 ["BasicString::wildcard_match"])
prop("C20", "Character classification and case mapping match the default C locale",
 "For every value of every supported character type, the alphabetic, upper, lower, digit, hexadecimal digit and space classifications and the upper/lower case mappings agree with the default C locale for ASCII values and are false (or the identity) for every other value.",
 ["inputs"], "all character values of all five character types",
 "Tests iterate over positive 8-bit values only.",
 ["fly/types/string/detail/classifier.hpp"],
 [("bit tricks for classification", "BasicClassifier")],
 ["BasicString::is_* / to_*"])
prop("C21", "Text to number conversion is exact or fails",
 "Converting a string to an integer type succeeds exactly when the whole string is a decimal number (optionally preceded by '-' for signed types) whose value fits the type, and gives that value. The lexer's decimal, hexadecimal and exact-match consumers likewise return exactly the value of the digits consumed and stop right after them, or fail without consuming.",
 ["inputs"], "all short strings and all integer types; values around each type's limits",
 "Tests use limits and a few malformed strings.",
 ["fly/types/string/detail/converter.hpp", "fly/types/string/string.hpp", "fly/types/string/lexer.hpp"],
 [("from_chars wrapper", "BasicString::convert / Converter"), ("lexing loops", "BasicLexer::consume_number/consume_hex_number")],
 ["BasicString::convert", "BasicLexer"])
prop("C22", "Formatting a value gives the text the format specification describes",
 "For every integer, boolean, character, pointer and string value (floating point excluded) and every combination of fill, alignment, sign, alternate form, zero padding, width, precision and type accepted by the formatter, the result is the text the std::format-style specification describes, octal alternate form being a leading 0. Width and precision count code units, strings are left aligned by default and numbers right aligned; numbers read back to the value that was formatted and width is at least what was asked.",
 ["inputs", "configurations"], "all integer values crossed with all specifier fields",
 "Tests cover each option with a handful of values.",
 ["fly/types/string/formatters.hpp", "fly/types/string/detail/format_specifier.hpp", "fly/types/string/format.hpp"],
 [("integer formatting, base conversion and padding", "Formatter<T> specialisations in formatters.hpp")],
 ["BasicString::format"])
prop("C23", "Format string parsing accepts exactly valid format strings",
 "A format string of at most 64 fields is accepted exactly when its braces are balanced or escaped, its argument positions exist and are not mixed between automatic and manual numbering, and each specification is valid for the type of its argument; an invalid one known only at run time formats to a message naming the error instead. Literal text, including escaped braces, is copied through unchanged and replacement fields are filled from the arguments they name.",
 ["inputs"], "all short format strings against argument lists of several types",
 "Tests list some accepted and rejected strings.",
 ["fly/types/string/detail/format_string.hpp", "fly/types/string/detail/format_specifier.hpp", "fly/types/string/detail/format_parse_context.hpp", "fly/types/string/format.hpp"],
 [("format string scanner", "BasicFormatString"), ("specifier parser", "BasicFormatSpecifier"), ("lexer", "BasicLexer")],
 ["BasicFormatString", "BasicString::format"])
prop("C24", "Byte order conversion is an exact involution",
 "Swapping the bytes of an integer of any supported width reverses its bytes exactly, swapping twice restores it, and converting between native, little and big endian swaps exactly when the orders differ.",
 ["inputs"], "all values of all integer widths",
 "Tests use one value per width.",
 ["fly/types/numeric/endian.hpp", "fly/types/numeric/detail/byte_swap.hpp"],
 [("byte swap", "endian_swap*, byte_swap")],
 ["fly::endian_swap"])
prop("C25", "IPv4 addresses parse and print exactly",
 "Parsing accepts exactly one to four dot-separated decimal numbers where each but the last fits a byte and the last fits the remaining bytes, giving the address they denote, and rejects everything else, including numbers too large for any integer type. Printing an address and parsing it back gives the same address, and network and host order views agree.",
 ["inputs"], "all 32-bit addresses and all short texts",
 "Tests use fixed addresses and rejects.",
 ["fly/net/ipv4_address.hpp", "fly/types/string/lexer.hpp"],
 [("octet parsing", "IPv4Address::from_string"), ("printing", "formatter of IPv4Address")],
 ["IPv4Address"])
prop("C26", "IPv6 addresses parse and print exactly",
 "Parsing accepts exactly eight colon-separated groups of one to four hexadecimal digits, or fewer with a single '::' standing for at least one zero group, giving the address they denote, and rejects everything else. Printing an address and parsing it back gives the same address.",
 ["inputs"], "all 128-bit addresses and all short texts over the address alphabet",
 "Tests use fixed addresses and rejects.",
 ["fly/net/ipv6_address.hpp", "fly/types/string/lexer.hpp"],
 [("hexadectet parsing", "IPv6Address::from_string"), ("printing with zero compression", "formatter of IPv6Address")],
 ["IPv6Address"])
prop("C27", "Endpoints parse and print exactly",
 "Parsing an endpoint accepts exactly a valid IPv4 address, or a valid IPv6 address in square brackets, followed by one colon and a decimal port that fits 16 bits, and gives that address and port. Printing an endpoint and parsing it back gives the same endpoint.",
 ["inputs"], "all addresses and ports, all short texts around the separators",
 "Tests use fixed endpoints.",
 ["fly/net/endpoint.hpp"],
 [("split on the last colon and bracket checks", "Endpoint::from_string")],
 ["Endpoint"])
prop("C28", "Asynchronous TCP transfers deliver every byte once and in order",
 "However the operating system splits, delays or fails the underlying calls, a successful asynchronous send hands the kernel exactly the message's bytes in order, each exactly once, and its callback runs exactly once with the byte count; messages queued on one socket are sent one after the other; an asynchronous receive delivers exactly the bytes received. On a fatal error (any but would-block) the socket is closed and the callback of the operation that met it runs once, with the bytes transferred so far; an operation asked of a socket that is not open fails through its callback. The caller keeps a message alive until its callback has run.",
 ["inputs", "schedules", "fault_sequences"], "all sequences of partial sends, would-block results and errors",
 "Tests use loopback sockets that accept everything at once, and a few mocked failures.",
 ["fly/net/socket/tcp_socket.cpp", "fly/net/socket/detail/nix/socket_operations.cpp", "fly/net/socket/socket_service.cpp"],
 [("partial send continuation", "TcpSocket::ready_to_send"), ("receive", "TcpSocket::ready_to_receive"), ("would-block mapping", "detail::send/recv")],
 ["system calls made", "callbacks"])
prop("C29", "Asynchronous UDP transfers deliver the whole datagram to the right peer",
 "However the operating system splits, delays or fails the underlying calls, a successful asynchronous UDP send hands the kernel exactly the message's bytes addressed to the given endpoint and its callback runs exactly once; in pieces of at most the configured packet size; an asynchronous receive delivers exactly the received bytes (none, for an empty datagram) to its callback exactly once. On a fatal error (any but would-block) the socket is closed and the callback of the operation that met it runs once, with the bytes transferred so far.",
 ["inputs", "schedules", "fault_sequences"], "all sequences of partial sends, would-block results and errors",
 "As for TCP: loopback never splits or blocks.",
 ["fly/net/socket/udp_socket.cpp", "fly/net/socket/detail/nix/socket_operations.cpp"],
 [("partial send continuation", "UdpSocket::ready_to_send"), ("receive", "UdpSocket::ready_to_receive")],
 ["system calls made", "callbacks"])
prop("C30", "Sockets own their descriptor and close it exactly once",
 "Every descriptor a socket obtains is closed exactly once: on close, on destruction, on failure of creation steps, when moved over, and never by a moved-from socket. A socket is valid until it is closed, moved from or fails; connecting, connected and listening states hold from the moment the operating system says so until then. A TCP connection attempt reports success only when the operating system says the connection is established.",
 ["histories", "fault_sequences"], "all short sequences of create, move, connect, accept, close with all system call outcomes",
 "Tests cover the happy path and one failure per call.",
 ["fly/net/socket/detail/base_socket.cpp", "fly/net/socket/tcp_socket.cpp", "fly/net/socket/listen_socket.cpp", "fly/net/socket/detail/nix/socket_operations.cpp"],
 [("ownership", "BaseSocket constructors, destructor, move operations, close"), ("connection state", "TcpSocket::connect/connect_async/finish_connect")],
 ["system calls made", "is_open / is_connected / is_listening"])
prop("C31", "Socket service notifies each registered operation exactly once when ready",
 "A socket registered for reading or writing is notified exactly once, exactly when the operating system reports that descriptor ready for that direction, and is not forgotten while it stays not ready. Once the removal or closing of a socket was processed its pending notifications are cancelled; a request for a socket that is already closed fails at once; other sockets are unaffected, whatever the numbers of their descriptors.",
 ["histories", "schedules"], "all short histories of registration, readiness, failing select calls, removal and closing",
 "Tests exercise one or two loopback sockets.",
 ["fly/net/socket/socket_service.cpp", "fly/net/socket/socket_service.hpp", "fly/net/socket/detail/nix/socket_operations.cpp"],
 [("request lists and select loop", "SocketService::poll/remove_socket/notify_when_*"), ("descriptor sets", "detail::select")],
 ["callbacks"])
prop("C32", "Sequenced tasks run one at a time, in posting order, exactly once",
 "Tasks posted to a sequenced task runner from any threads execute exactly once each, never two at the same time, and in the order in which they were posted. Each task's result is delivered to its reply task exactly once, after the task.",
 ["schedules", "histories"], "all interleavings of posting threads and worker threads",
 "Tests observe a few runs with real threads.",
 ["fly/task/task_runner.cpp", "fly/task/task_runner.hpp", "fly/task/task_manager.cpp"],
 [("pending queue and one-in-flight flag", "SequencedTaskRunner::post_task_internal/task_complete/maybe_post_task")],
 ["execution order of tasks"])
prop("C33", "Posted tasks run exactly once while the manager runs and never after stop",
 "A task posted to a parallel task runner while its manager runs is executed exactly once by some worker; a delayed task never executes before its delay has elapsed; a task whose owner has been destroyed is skipped. After stop returns no task executes, and start and stop report whether they changed anything.",
 ["schedules", "histories"], "all interleavings of post, worker, timer and stop",
 "Tests observe a few timings.",
 ["fly/task/task_manager.cpp", "fly/task/task_runner.cpp", "fly/task/task_runner.hpp"],
 [("worker and timer threads", "TaskManager::worker_thread/timer_thread"), ("delayed list", "TaskManager::post_task_with_delay"), ("weak owner check", "TaskRunner::invoke_task and wrap")],
 ["task executions"])
prop("C34", "Concurrent queue and stack lose, duplicate and reorder nothing",
 "Under every interleaving of pushes and pops, every element pushed is popped at most once, a blocked pop returns once an element is available, and elements come out first-in-first-out for the queue and last-in-first-out for the stack. A timed pop reports failure only if it found the container empty, and size and empty agree with the contents.",
 ["schedules", "histories"], "all interleavings of a few producers and consumers",
 "Tests run threads without controlling the schedule.",
 ["fly/types/concurrency/detail/concurrent_container.hpp", "fly/types/concurrency/concurrent_queue.hpp", "fly/types/concurrency/concurrent_stack.hpp"],
 [("mutex and condition variable", "ConcurrentContainer::push/pop/pop_internal")],
 ["values popped"])
prop("C35", "Configuration values are the configured value or the default",
 "Looking up a configuration value returns the value configured under that name converted to the requested type as JSON values convert, or the given default when it is absent or cannot be converted. When the file changes, later lookups see all of its new values at once; a file that is missing, malformed or not a set of named sections makes every lookup return its default, never a crash, until a good file appears. The manager can be dropped at any moment.",
 ["inputs", "histories"], "all short names, values and update sequences",
 "Tests use fixed names and values.",
 ["fly/config/config.cpp", "fly/config/config.hpp", "fly/config/config_manager.cpp"],
 [("lookup with fallback", "Config::get_value"), ("update", "Config::update")],
 ["Config::get_value"])
prop("C36", "Loggers deliver every record exactly once, in order and intact",
 "While a logger runs, every log point is delivered to its sink exactly once, with its level, trace, formatted message cut to the configured size, the time at which it was made and distinct, consecutive indices; the records of one thread are delivered in the order it made them. Nothing is delivered before the sink is initialised or after the sink has reported a failure.",
 ["inputs", "histories"], "all levels, messages and configurations",
 "Tests log a few messages per level.",
 ["fly/logger/logger.cpp", "fly/logger/logger.hpp", "fly/logger/log.hpp", "fly/logger/logger_config.cpp"],
 [("level filter and record construction", "Logger::log")],
 ["sink stream calls"])
prop("C37", "Log files lose nothing and rotate at their size limit",
 "The file sink writes every record exactly once and in order across its files, and reports a record as written exactly when it is on disk. It starts a new file right after the record that makes the current one larger than the configured size. Compression, if enabled, replaces a rotated file only after it succeeded, so that no record is lost.",
 ["inputs", "histories", "fault_sequences"], "all record sizes, limits and stream failures",
 "Tests rotate a few files.",
 ["fly/logger/detail/file_sink.cpp"],
 [("rotation", "FileSink::stream/create_log_file")],
 ["file contents"])
prop("C38", "Named loggers are unique and findable while they live",
 "At any time at most one live logger is registered per name: creating a second logger of the same name fails while the first lives and leaves the first registered, lookup returns exactly the live logger of that name, and the name is free as soon as the logger is destroyed. The default logger is the one set, kept alive until replaced, or the initial one when reset.",
 ["histories"], "all short histories of create, lookup, destroy and set-default",
 "Tests cover a few fixed sequences.",
 ["fly/logger/detail/registry.cpp", "fly/logger/logger.cpp"],
 [("registry map of weak references", "Registry::register_logger/unregister_logger/get_logger")],
 ["Logger::create_*", "Logger::get"])
prop("C39", "Path monitor reports exactly the changes of registered paths",
 "Whatever batches of change notifications the kernel delivers, each notification about a registered file is reported once, in order, to that file's callback with the right kind of event and path; notifications about other files of a registered directory go to the directory's callback; nothing else is reported, and nothing once a removal has returned. A directory (registered under one spelling) is watched exactly while something in it is registered, whatever threads register and remove at the same time, and every watch and the descriptor are released in the end.",
 ["inputs", "histories", "fault_sequences"], "all short batches of notifications, registrations and removals",
 "Tests create and delete a few files.",
 ["fly/path/path_monitor.cpp", "fly/path/nix/path_monitor_impl.cpp"],
 [("event buffer walk", "PathMonitorImpl::read_events/handle_event"), ("mask conversion", "PathMonitorImpl::convert_to_event"), ("registration map", "PathMonitor::add_file/remove_file/...")],
 ["callbacks"])
prop("C40", "System monitor usage figures are sane for every reading",
 "For every pair of successive readings of the system's processor, process and memory counters, usage percentages are the share of the time since the previous reading, finite and within 0 to 100 when the counters grow consistently; memory in use is the total less the free memory. A malformed, missing or failed reading, or one in which no time has passed, leaves the previous values in place.",
 ["inputs", "fault_sequences"], "all counter readings",
 "Tests read the real machine twice.",
 ["fly/system/system_monitor.cpp", "fly/system/nix/system_monitor_impl.cpp"],
 [("tick deltas", "SystemMonitorImpl::update_system_cpu_usage / update_process_cpu_usage"), ("memory", "update_*_memory_usage")],
 ["SystemMonitor getters"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except ImportError: pass
print(len(P), "properties")
