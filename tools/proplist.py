"""The properties."""

from __main__ import prop

BND = ("Bounded: every value within the case's stated bounds (see evidence "
       "bounds); nothing is claimed outside them. ")

prop("P01", "Primitive values survive encoding in the documented layout",
     "Every value a primitive type can hold is encoded to exactly the type's "
     "size in bytes, laid out as the selected byte order says (two's "
     "complement integers, IEEE-754 floats, one-byte booleans), and decoding "
     "those bytes in the same order gives the value back. This holds whichever "
     "interface is used - instance, class, or stream - and a value read from a "
     "stream consumes exactly its size. Decoding never disturbs other state "
     "and re-encoding decoded bytes reproduces them.",
     ["inputs", "configurations"],
     "every value of every type (including every bit pattern of floats except "
     "NaN payloads), every byte order, every interface",
     "The tests encode a few sample values per type; 64-bit and floating-point "
     "ranges cannot be sampled meaningfully, and byte-order mistakes hide "
     "behind palindromic or small values.",
     ["runtimepy/primitives/base.py", "runtimepy/primitives/types/base.py",
      "runtimepy/primitives/byte_order.py", "runtimepy/primitives/int.py",
      "runtimepy/primitives/float.py", "runtimepy/primitives/bool.py"],
     [("encode/decode through struct with the byte order's prefix",
       "runtimepy/primitives/types/base.py"),
      ("binary/update/from_stream/to_stream", "runtimepy/primitives/base.py")],
     BND + "Covers all values of all 12 types; excludes NaN payload bits.")

prop("P02", "Scaled values are exact, clamped and rounded to nearest",
     "Reading a primitive in engineering units gives the value of its scaling "
     "polynomial at the raw value; assigning engineering units stores the "
     "nearest raw value the type can hold, clamped to the type's range and "
     "never wrapped. For scalings of degree one or less, assigning back what "
     "was read restores the raw value.",
     ["inputs", "configurations"],
     "every raw value of the integer types up to 16 bits (32 where exact), a "
     "set of linear and quadratic scalings, every requested value in a wide "
     "range around the type's range",
     "Tests use one or two scalings and interior values; rounding ties, the "
     "limits of each type and out-of-range requests need every value.",
     ["runtimepy/primitives/scaling.py", "runtimepy/primitives/base.py",
      "runtimepy/primitives/types/bounds.py", "runtimepy/primitives/int.py"],
     [("apply/invert", "runtimepy/primitives/scaling.py"),
      ("clamping", "runtimepy/primitives/types/bounds.py")],
     BND + "Scalings are a fixed list with dyadic coefficients.")

prop("P03", "Change callbacks: once per change, in order, with stored values",
     "Each assignment that changes a primitive's stored value invokes every "
     "registered callback exactly once with the value before and the value now "
     "stored, and an assignment that does not change it invokes none. One-time "
     "callbacks run once and are then gone; callbacks may be removed (also from "
     "inside a callback, or when a managed scope ends) and are then silent "
     "while the others keep working. Every assignment refreshes the update "
     "time, whether or not the value changed.",
     ["inputs", "histories"],
     "every starting value and sequence of 3 (thorough: 5) assignments, every "
     "pattern of registration and removal of three callbacks",
     "Tests register one callback and change the value a couple of times; "
     "wrapped values, removal during delivery and re-entrant assignment are "
     "not exercised.",
     ["runtimepy/primitives/base.py", "runtimepy/primitives/int.py",
      "runtimepy/primitives/bool.py"],
     [("set_value/_check_callbacks", "runtimepy/primitives/base.py")],
     BND + "Up to 5 assignments and 3 callbacks.")

prop("P04", "Bit fields partition their storage and keep to their own bits",
     "Bit fields and flags claimed in one storage primitive never overlap and "
     "never extend past it; a claim that would, or that reuses a name, is "
     "refused. Writing a field stores the value's low bits in exactly the "
     "field's position, leaves every other bit of the storage as it was, and "
     "reads back the same whether addressed by name, identifier, enumeration "
     "name or boolean word. Exported fields load back with the same "
     "positions, padding, names, descriptions, enumerations and values.",
     ["inputs", "configurations"],
     "every position and width, every prior storage value and every assigned "
     "value, every arrangement of up to three claims",
     "Masks and shifts go wrong only for particular widths, positions and "
     "neighbouring bits; tests use a couple of layouts.",
     ["runtimepy/primitives/field/__init__.py",
      "runtimepy/primitives/field/fields.py",
      "runtimepy/primitives/field/manager/base.py"],
     [("BitField get/set", "runtimepy/primitives/field/__init__.py"),
      ("claiming and export", "runtimepy/primitives/field/fields.py")],
     BND + "8 or 16 bits of storage, up to three claims in sequence.")

prop("P05", "Primitive arrays and chains are their elements, one after another",
     "An array's encoding is the concatenation of its elements' encodings in "
     "its byte order without padding, for any mix of element types, repeated "
     "elements and chained members, and its reported size is exactly that "
     "length. Decoding restores every element, and data of the wrong length is "
     "refused without changing anything. A fragment reads and writes exactly "
     "the chosen elements, every element stays addressable by its index and "
     "byte offset, and copies equal the original but share no storage with it.",
     ["inputs", "configurations"],
     "every value of every element of a set of element lists and chains",
     "Alignment, wrong offsets and shared storage show only in mixed layouts "
     "with particular values.",
     ["runtimepy/primitives/array/__init__.py",
      "runtimepy/primitives/serializable/base.py"],
     [("update/fragment", "runtimepy/primitives/array/__init__.py"),
      ("chains", "runtimepy/primitives/serializable/base.py")],
     BND + "Six element lists of up to 5 types; chains of up to 3 members.")

prop("P06", "Length-prefixed strings and chunks survive any content",
     "A written string or chunk is its encoded length in the prefix type and "
     "byte order followed by exactly that many bytes, for any text including "
     "non-ASCII; reading takes exactly those bytes, so consecutive items stay "
     "apart. A chunk too long for its prefix, or one cut short in the stream, "
     "is refused rather than truncated. A fixed chunk always keeps its length.",
     ["inputs"],
     "every content of a set of lengths, every prefix type and byte order, "
     "every cut point",
     "Tests write ASCII samples; encoded sizes differ from character counts "
     "only for other text, and limits need long contents.",
     ["runtimepy/primitives/string.py",
      "runtimepy/primitives/serializable/prefixed.py",
      "runtimepy/primitives/serializable/fixed.py"],
     [("StringPrimitive", "runtimepy/primitives/string.py"),
      ("PrefixedChunk", "runtimepy/primitives/serializable/prefixed.py")],
     BND + "Texts of up to 4 characters, chunks of up to 300 bytes.")

prop("P07", "Framed samples arrive whole, once and in order within the MTU",
     "A framer puts as many whole elements in a frame as fit the transmission "
     "unit (at least one), so no frame exceeds it unless a single element "
     "does. Over any sequence of captures and flushes every sample appears in "
     "exactly one frame, whole and in capture order, and nothing is emitted "
     "that was not captured. Elements with chained members are framed whole.",
     ["inputs", "histories"],
     "every unit size and overhead, every sequence of 4 to 6 calls",
     "Off-by-one frame capacities only show at particular unit sizes and at "
     "particular flush points.",
     ["runtimepy/primitives/serializable/framer.py"],
     [("SerializableFramer", "runtimepy/primitives/serializable/framer.py")],
     BND + "Up to 6 calls and 3 elements per frame.")

prop("P08", "Protocols encode, copy and export without losing anything",
     "A protocol's encoding is its fields, bit fields, arrays and nested "
     "members in the order they were added, its size is their sum, and "
     "decoding restores every field by name, with enumeration values shown by "
     "name. A copy has the same layout, identifier and byte order but shares no "
     "storage with the original, however members are nested or repeated. For "
     "protocols of fields, arrays and bit fields, export and import keep the "
     "layout and all values; unknown or duplicate names are refused without "
     "effect.",
     ["inputs", "configurations"],
     "every value of every field in ten layouts and three byte orders",
     "Tests build a few protocols and compare sample values; nested and "
     "repeated members, copies of copies and re-imports are not combined.",
     ["runtimepy/codec/protocol/base.py", "runtimepy/codec/protocol/json.py",
      "runtimepy/codec/protocol/__init__.py"],
     [("build order", "runtimepy/codec/protocol/base.py"),
      ("export/import", "runtimepy/codec/protocol/json.py")],
     BND + "Ten layouts of up to 4 members.")

prop("P09", "Types are sized, nested and named consistently in a type system",
     "A type's size is the sum of its members' sizes, whatever mix of built-in "
     "types, enumerations and nested types they are and however often each is "
     "repeated, and its encoding is those members in the order they were "
     "added, nested types by value. A name belongs to the namespace it was "
     "registered in and is found there first; registering it there again, or "
     "using a member name twice, is refused and changes nothing.",
     ["inputs", "configurations", "histories"],
     "every choice of three members, every value of two nested types, every "
     "sequence of 2 or 3 registrations in three namespaces",
     "Tests build one system; sizes and name lookups depend on the combination "
     "and on what was refused before.",
     ["runtimepy/codec/system/__init__.py", "runtimepy/codec/protocol/base.py"],
     [("add/size/_find_name", "runtimepy/codec/system/__init__.py")],
     BND + "Up to 3 members, 3 registrations, 2 levels of namespaces.")

prop("P10", "Registries and enumerations map names and identifiers one to one",
     "Over any history of registrations and loads, every registered name has "
     "one identifier and every identifier one name, neither ever changes, "
     "automatic identifiers are unused ones, and a malformed name or a taken "
     "name or identifier is refused without changing anything. Names are "
     "listed in registration order. Enumerations answer by name, by value and "
     "by number or boolean word, refuse what they do not contain, and survive "
     "export and import.",
     ["inputs", "histories"],
     "every sequence of 2 or 3 registrations of three names with every choice "
     "of identifier; every name of up to 2 (thorough 3) characters; every value "
     "looked up in an enumeration",
     "Inconsistencies need a particular order of explicit and automatic "
     "identifiers or of refused registrations.",
     ["runtimepy/mapping.py", "runtimepy/registry/name.py",
      "runtimepy/registry/bool.py", "runtimepy/registry/__init__.py",
      "runtimepy/enum/__init__.py", "runtimepy/mixins/regex.py"],
     [("_set", "runtimepy/mapping.py"), ("register_name", "runtimepy/registry/name.py"),
      ("validate_name", "runtimepy/mixins/regex.py")],
     BND + "Three names plus malformed ones, up to 3 registrations.")

prop("P11", "Environments read back what is assigned, by name or identifier",
     "A value that a channel or bit field can hold, assigned by name or by "
     "identifier, reads back the same by either (scaled or raw, as an enum's item "
     "or as its number) and changes nothing else in the environment; text is "
     "taken as the channel's type, and text that isn't understood, unlisted "
     "items and unknown keys are refused without any effect. A map of all values "
     "read from one environment can be applied to another, typed lookups find "
     "exactly the channels of their type, and defaults and increments take effect. "
     "An array made from an ordered list of keys is exactly the primitives of those "
     "channels and bit fields, each once, in order, and repeated or split-up bit "
     "fields are refused.",
     ["inputs", "histories"],
     "every value of every kind of channel and field, every earlier state of the "
     "others, every list of 3 (thorough: 5) of 7 keys",
     "Tests assign a few values and check the same channel.",
     ["runtimepy/channel/environment/base.py", "runtimepy/channel/environment/array.py",
      "runtimepy/channel/environment/create.py", "runtimepy/channel/__init__.py",
      "runtimepy/primitives/field/manager/base.py"],
     [("BaseChannelEnvironment.set/value", "runtimepy/channel/environment/base.py"),
      ("ArrayChannelEnvironment.array", "runtimepy/channel/environment/array.py")],
     BND + "One environment with a channel of most types and a bit-field word.")

prop("P12", "Saved environments load back the same",
     "An environment saved as one document or as a directory of files and loaded "
     "again has the same channels, enums and bit fields (names, identifiers, types, "
     "descriptions, controls, defaults, scaling, commandability, positions) and the "
     "same values, except that NaN values are left out and start over from the "
     "default. Saving changes nothing, and saving twice gives the same. A loaded "
     "environment is final unless asked otherwise, and then new channels never "
     "reuse an identifier.",
     ["inputs", "histories"],
     "every value of the channels and fields, several names, scalings and controls",
     "Tests reload one sample environment and compare few of its parts.",
     ["runtimepy/channel/environment/file.py", "runtimepy/channel/__init__.py",
      "runtimepy/registry/__init__.py", "runtimepy/primitives/field/fields.py",
      "runtimepy/data/schemas/Channel.yaml"],
     [("FileChannelEnvironment.export_json/load_json",
       "runtimepy/channel/environment/file.py")],
     BND + "The text form of JSON is replaced by a store when values are symbolic. One "
     "known finding: values of a channel whose scaling has more than two terms.")

prop("P13", "Telemetry reports each change once, and parses however it is split",
     "A stream registered for channels and bit fields gets their current values, "
     "then one event per change with the raw value and its time, in order (less "
     "those closer than a channel's minimum period), for exactly the names that "
     "match, and nothing once the registration ends, however it ends; metrics count "
     "those events and bytes. An event stream split into reads at any place gives the "
     "same events, each as soon as it is complete, and an environment that ingests "
     "them ends in the same state. Events group by channel in order.",
     ["inputs", "histories", "chunking"],
     "every value and time of 2 writes to 2 channels or words, every split of 2 "
     "events in 3 (thorough: 4)",
     "Tests read whole streams of a few events.",
     ["runtimepy/channel/environment/telemetry.py", "runtimepy/channel/event/__init__.py",
      "runtimepy/channel/registry.py", "runtimepy/channel/event/header.py"],
     [("TelemetryChannelEnvironment.parse_event_stream/registered",
       "runtimepy/channel/environment/telemetry.py"),
      ("PrimitiveEvent", "runtimepy/channel/event/__init__.py")],
     BND + "Floating-point values are not NaN.")

prop("P14", "Commands change only what they name, and only when allowed",
     "A set or toggle command takes effect only on an existing channel or bit field "
     "that is commandable (or when forced), with a value it understands; it then "
     "changes exactly that and reports success, and otherwise it changes nothing, "
     "reports failure with a reason, and doesn't affect the next command. Anything "
     "can be read. Hooks run once, in order, for each successful change and for "
     "each remote or custom command (which change nothing locally), and never "
     "otherwise; queued commands are handled once each, in order, and suggestions "
     "complete what was typed.",
     ["inputs", "histories"],
     "every state, channel kind, combination of flags, and number texts of up to 2 "
     "(thorough: 3) characters; 3 (thorough: 4) queued commands",
     "Tests run a list of commands against one state.",
     ["runtimepy/channel/environment/command/processor.py",
      "runtimepy/channel/environment/command/parser.py",
      "runtimepy/mixins/async_command.py", "runtimepy/primitives/field/__init__.py"],
     [("ChannelCommandProcessor",
       "runtimepy/channel/environment/command/processor.py"),
      ("AsyncCommandProcessingMixin", "runtimepy/mixins/async_command.py")],
     BND + "Command lines are parsed by the standard library; their tokens are "
     "chosen from lists, values to set are symbolic text.")

prop("P15", "Messages on a stream arrive whole, once, in order",
     "Messages sent with a length prefix, of any length kind and byte order, are "
     "received exactly once each, in order and intact, each as soon as its last byte "
     "arrives and however the stream is split into reads; this includes empty "
     "messages, text of any characters and JSON. The messages in any stream are "
     "exactly those its lengths delimit. A message that cannot be handled does not "
     "disturb the ones after it, and a read reports failure when a message in it "
     "failed.",
     ["inputs", "chunking"],
     "every content of up to 4 messages of up to 3 bytes, every split into 3 "
     "(thorough: 4) reads, every stream of up to 5 (thorough: 6) bytes",
     "Tests send whole messages over local sockets and see few splits.",
     ["runtimepy/message/__init__.py", "runtimepy/net/stream/base.py",
      "runtimepy/net/stream/string.py"],
     [("MessageProcessor", "runtimepy/message/__init__.py"),
      ("PrefixedMessageConnection", "runtimepy/net/stream/base.py")],
     BND + "JSON texts are chosen from a list, valid or not.")

prop("P16", "JSON requests get their own responses, and nothing is answered twice",
     "However long each message takes, and in whatever order they arrive, a request "
     "returns the response to itself or fails once its timeout passes, also while the "
     "other end makes requests with other identifiers; a response is never answered. Known keys "
     "are handled once, unknown ones are listed in the response, the identifier is "
     "echoed, and nothing is sent when there is nothing to say; polls go back and "
     "forth as often as asked, and messages logged for the other end are logged there "
     "once each, in order. Both ends initialize and learn each other's metadata, and "
     "a command sent to the other end has the effect and result it has there.",
     ["inputs", "schedules"],
     "every delay and payload of 3 (thorough: 4) requests at once, every subset of "
     "5 keys, 8 commands to 3 environments",
     "Tests exchange messages one at a time over a local socket.",
     ["runtimepy/message/interface.py", "runtimepy/message/handlers.py",
      "runtimepy/net/stream/json/__init__.py"],
     [("JsonMessageInterface", "runtimepy/message/interface.py"),
      ("JsonMessageConnection", "runtimepy/net/stream/json/__init__.py")],
     BND + "JSON text is replaced by a store of values; integer delays on a virtual "
     "clock. One known finding: both ends waiting with the same identifier.")

prop("P17", "HTTP messages arrive whole, and requests get their own responses",
     "Requests and responses in a stream are reported with their method or status, "
     "target, headers of any text (names in any case) and body exactly as sent, in "
     "order, each as soon as its last byte arrives, however the stream is split. "
     "Targets and versions are taken apart as their form says. Each request is "
     "handled once, in order, by the handler of its method or answered with 501, and "
     "returns the response to itself, also when others are made at the same time or "
     "an earlier one was cancelled.",
     ["inputs", "chunking", "schedules"],
     "every body of up to 3 bytes in two messages split at every place (thorough: "
     "every two), every target of 3 (thorough: 4) characters, every delay of 3 "
     "concurrent requests, every time of cancelling one",
     "Tests send whole messages one at a time over a local socket.",
     ["runtimepy/net/http/__init__.py", "runtimepy/net/http/state.py",
      "runtimepy/net/http/common.py", "runtimepy/net/http/header.py",
      "runtimepy/net/http/response.py", "runtimepy/net/http/request_target.py",
      "runtimepy/net/tcp/http/__init__.py"],
     [("HttpMessageProcessor.ingest", "runtimepy/net/http/__init__.py"),
      ("HttpConnection.request/process_binary", "runtimepy/net/tcp/http/__init__.py")],
     BND + "Header lines from lists, one header value symbolic; bodies symbolic.")

prop("P18", "An HTTP server serves the files, data and commands of its paths, only",
     "A path is answered with the file (or rendered markdown) of that name in the "
     "first search path that has it, exactly its content, and no path reads anything "
     "outside of the search paths; others are redirected as registered, given to the "
     "application or redirected to the error page. A path with data is answered with "
     "the value found by its parts, or with the part that couldn't be found, and a "
     "posted path runs the command it spells in the environment it names, with the "
     "effect and result the command has anywhere else, or changes nothing.",
     ["inputs"],
     "every path of 5 (thorough: 7) characters of slashes, dots and a letter, every "
     "path of 3 (thorough: 4) of 8 components, every content of 3 bytes",
     "Whether a path escapes depends on combinations of dots, slashes and siblings "
     "that nobody lists.",
     ["runtimepy/net/server/__init__.py", "runtimepy/net/server/json.py",
      "runtimepy/util.py"],
     [("RuntimepyServerConnection.get_handler/post_handler",
       "runtimepy/net/server/__init__.py"),
      ("json_handler", "runtimepy/net/server/json.py")],
     BND + "File reads are replaced by a recorder of paths (in a scratch tree); "
     "rendering of markdown and applications is not covered.")

prop("P19", "TFTP messages survive the wire, and malformed ones harm nothing",
     "Requests, data, acknowledgements and errors are laid out as in RFC 1350 and "
     "arrive with the names, modes, blocks, data, codes and messages they were sent "
     "with, for any of them. Whatever else arrives is at most answered with an error "
     "to its sender, and everything after it is still processed; blocks and "
     "acknowledgements nobody waits for change nothing, awaited ones count once.",
     ["inputs"],
     "every datagram of up to 5 (thorough: 8) bytes, every block number, code and "
     "name or message of 2 (thorough: 4) characters",
     "A server is exposed to datagrams no test thinks of.",
     ["runtimepy/net/udp/tftp/base.py", "runtimepy/net/udp/tftp/enums.py",
      "runtimepy/net/udp/tftp/endpoint.py"],
     [("BaseTftpConnection.process_datagram/send_*",
       "runtimepy/net/udp/tftp/base.py"),
      ("TftpEndpoint.handle_*", "runtimepy/net/udp/tftp/endpoint.py")],
     BND + "Stub transports; addresses are their own host names.")

prop("P20", "TFTP transfers deliver exactly the content, or fail in time",
     "A read or write succeeds although a message is lost, repeated or delayed "
     "beyond its re-transmission, with exactly the content at the other end, also "
     "long after it ended, for any size. When the other end is gone or refuses, it "
     "fails within the timeout, refusals with a reason, nothing is changed, and "
     "whatever happened, later transfers and those of other clients are not "
     "affected, nor is anything expected or sent forever.",
     ["schedules", "faults"],
     "one (thorough: two) faults of 4 kinds at any message of transfers of up to "
     "5 bytes in blocks of 2; the other end gone from any message on; sizes around "
     "multiples of 512",
     "Tests use a loopback network, which never loses or repeats anything.",
     ["runtimepy/net/udp/tftp/__init__.py", "runtimepy/net/udp/tftp/endpoint.py",
      "runtimepy/net/udp/tftp/base.py", "runtimepy/net/udp/tftp/io.py"],
     [("TftpConnection.request_read/request_write",
       "runtimepy/net/udp/tftp/__init__.py"),
      ("TftpEndpoint.ingest_file/serve_file", "runtimepy/net/udp/tftp/endpoint.py")],
     BND + "A virtual clock and network; real files in a scratch directory, with "
     "fixed contents. One known finding: a repeated block of an earlier read.")

prop("P21", "A TFTP server reads and writes files of its root directory only",
     "Whatever name is requested, only the file of that name in the root directory "
     "is read or written, and requests for others are refused as access violations.",
     ["inputs"],
     "every name of up to 5 (thorough: 7) characters of slashes, dots and a letter, "
     "every name of 3 (thorough: 4) of 7 components",
     "Whether a name escapes depends on combinations of dots, slashes and siblings "
     "that nobody lists.",
     ["runtimepy/net/udp/tftp/endpoint.py"],
     [("TftpEndpoint.handle_read_request/handle_write_request",
       "runtimepy/net/udp/tftp/endpoint.py")],
     BND + "File accesses through path objects are recorded instead of done; links "
     "are not followed.")

prop("P22", "Telnet streams are text, commands, options and signals, however split",
     "A stream is taken apart as RFC 854 says: text arrives complete and in order, "
     "with escaped bytes as themselves, and each command, option and signal is "
     "reported once, in order, wherever the stream is split. Bytes that are neither "
     "text nor known commands harm nothing after them, what is sent as text, a "
     "command or an option arrives as it, and only an interrupt disables a basic "
     "connection.",
     ["inputs", "chunking"],
     "every stream of 2 (thorough: 3) bytes after any of 3 beginnings, split at any "
     "place; every text of 2 (thorough: 3) of 4 characters split at any two places",
     "Tests send whole sequences in one frame.",
     ["runtimepy/net/tcp/telnet/__init__.py", "runtimepy/net/tcp/telnet/codes.py"],
     [("Telnet.process_binary", "runtimepy/net/tcp/telnet/__init__.py")],
     BND + "Subnegotiation is a command followed by text, as it is in the code.")

prop("P23", "Connections end once, restart cleanly, and managers keep track of them",
     "A connection is processed until the first stop signal, time limit, failed "
     "message, failed task or disabling, then handles nothing more and is closed and "
     "reported exactly once with no task left. Restarts are attempted with growing "
     "waits until one works, the limit or a stop, start with a fresh stream and keep "
     "a set address. A manager processes each connection one task at a time, forgets "
     "the ended ones, restarts those that ask for it and when stopped closes all, "
     "including those it never processed.",
     ["schedules", "faults"],
     "every pair of 7 events at every time of up to 3 with every initialisation; "
     "every result of up to 3 restarts; up to 2 (thorough: 3) managed connections "
     "arriving and ending at every time; every part of one message before a restart",
     "What is left behind depends on the order in which things end.",
     ["runtimepy/net/connection.py", "runtimepy/net/manager.py",
      "runtimepy/net/tcp/connection.py", "runtimepy/net/tcp/protocol.py",
      "runtimepy/net/udp/connection.py", "runtimepy/net/server/websocket/__init__.py"],
     [("Connection.process/_handle_restart", "runtimepy/net/connection.py"),
      ("ConnectionManager.manage", "runtimepy/net/manager.py"),
      ("TcpConnection.restart", "runtimepy/net/tcp/connection.py")],
     BND + "A virtual clock with whole-number times; scripted connections and stub "
     "transports; events at the very moment a manager stops are not distinguished.")

prop("P24", "Connecting is retried with exponential backoff, within its limits",
     "The first attempt to connect is made at once, and after each one that fails "
     "with a network error of any kind the wait is twice the previous one up to the "
     "limit, until one works, which is the result, or the number of attempts is "
     "reached, which is an error. Every attempt, also of a restart, uses the "
     "addresses asked for, and other errors are not hidden.",
     ["inputs", "faults"],
     "every interval, limit and number of up to 4 (thorough: 7) waits; up to 3 "
     "attempts with every outcome of 6 network errors, another error or success",
     "Tests connect to servers that are there.",
     ["runtimepy/net/backoff.py", "runtimepy/net/tcp/create.py",
      "runtimepy/net/udp/create.py", "runtimepy/net/util.py"],
     [("ExponentialBackoff", "runtimepy/net/backoff.py"),
      ("tcp_transport_protocol_backoff", "runtimepy/net/tcp/create.py"),
      ("udp_transport_protocol_backoff", "runtimepy/net/udp/create.py"),
      ("try_log_connection_error", "runtimepy/net/util.py")],
     BND + "A virtual clock with whole-number times; a scripted network.")

prop("P25", "Periodic tasks iterate at their period until one fails or they are ended",
     "An enabled task iterates at once and then at its period (an overrun delays only "
     "the next iteration), never twice at a time, not while paused, until an iteration "
     "fails or raises or the task is disabled, stopped or cancelled, after which it can "
     "be run again, and its metrics count the iterations and the overruns. Tasks of a "
     "manager start and stop together, asynchronous tasks stop at their limit, and "
     "housekeeping handles every queued command once and in order, also after one fails.",
     ["schedule", "faults"],
     "up to 4 iterations of up to 3 lengths, each working, failing or raising, with an "
     "event (disable, stop, cancel, pause, resume, new period) at every moment; up to 3 "
     "tasks; up to 3 commands",
     "Tests run tasks for a moment of real time and look that something happened.",
     ["runtimepy/task/basic/periodic.py", "runtimepy/task/basic/manager.py",
      "runtimepy/task/asynchronous.py", "runtimepy/metrics/task.py",
      "runtimepy/net/arbiter/housekeeping/__init__.py"],
     [("PeriodicTask", "runtimepy/task/basic/periodic.py"),
      ("PeriodicTaskManager", "runtimepy/task/basic/manager.py"),
      ("AsyncTask", "runtimepy/task/asynchronous.py"),
      ("PeriodicTaskMetrics", "runtimepy/metrics/task.py"),
      ("ConnectionMetricsPoller", "runtimepy/net/arbiter/housekeeping/__init__.py")],
     BND + "A virtual clock with whole-number times; scripted iterations.")

prop("P27", "An application runs its stages in order and ends with everything closed",
     "Once every server is started and every connection initialised (and, if asked, "
     "still alive), initialisation methods and then each stage run, until a stage has "
     "a method that fails or raises, and the exit code is zero only if none did, with "
     "the state of every method in the results. Whatever fails, and whenever, every "
     "connection is disabled and closed, and tasks, servers and the connection manager "
     "are stopped. Names are registered once, and searches find exactly the connections "
     "of a kind whose name matches.",
     ["inputs", "schedule", "faults"],
     "3 stages of up to 2 methods with results from -2 to 2 or an exception; up to 2 "
     "connections whose initialisation works, fails, raises or is interrupted; up to 2 "
     "servers that start or fail, at every time",
     "Tests run applications where everything works.",
     ["runtimepy/net/arbiter/base.py", "runtimepy/net/arbiter/result.py",
      "runtimepy/net/arbiter/info.py", "runtimepy/net/manager.py"],
     [("BaseConnectionArbiter", "runtimepy/net/arbiter/base.py"),
      ("AppInfo", "runtimepy/net/arbiter/info.py"),
      ("ConnectionManager", "runtimepy/net/manager.py"),
      ("ResultState", "runtimepy/net/arbiter/result.py")],
     BND + "A virtual clock with whole-number times; scripted connections, methods "
     "and servers.")

prop("P28", "Struct telemetry arrives as it was sampled, in order and whole",
     "Every sample a runtime struct takes arrives at its receiver once, in the order "
     "taken, with the values and the time it was taken with, in either byte order, "
     "packed into datagrams no larger than the limit, and any datagram lost takes only "
     "its own samples with it. A datagram that isn't a whole number of structs is "
     "ignored. A transceiver takes the only struct that matches its pattern, each "
     "struct is taken once, and a struct that asks for it is polled once at the end.",
     ["inputs", "faults"],
     "every value of 6 channels at every time in 3 (5) captures with any sampling, "
     "flushing and loss; every datagram of up to 30 (45) bytes; 3 structs",
     "Tests send one struct of zeros over a working link.",
     ["runtimepy/net/arbiter/struct/__init__.py", "runtimepy/net/mixin.py",
      "runtimepy/net/arbiter/info.py"],
     [("UdpStructTransceiver", "runtimepy/net/arbiter/struct/__init__.py"),
      ("BinaryMessage mixin", "runtimepy/net/mixin.py"),
      ("RuntimeStruct", "runtimepy/net/arbiter/info.py")],
     BND + "Up to 5 captures; a fixed set of channels; a scripted network.")

prop("P31", "Instruments are sent one command at a time and report what they said",
     "Commands for an SCPI device are sent whole and one at a time, and the result of "
     "one is the first line received after it was sent (nothing once its timeout is "
     "over), never one that came before. Whatever an NP-05B sends, the state of every "
     "outlet and its channel is the one in the last status it reported, and the "
     "connection goes on. Commands set exactly the outlets they name to the state they "
     "name (or the opposite of the reported one), unless already so, and tell whether "
     "the device reported that state afterwards.",
     ["inputs", "schedules", "faults"],
     "2 (3) commands with every delay of up to 4 or no response; every line of 2 "
     "characters and every status of 7; 2 (3) outlets set at once or in order, one "
     "refused; every late response",
     "Tests have one device that answers at once.",
     ["runtimepy/net/tcp/scpi/__init__.py", "runtimepy/net/tcp/telnet/np_05b.py",
      "runtimepy/mixins/async_command.py"],
     [("ScpiConnection", "runtimepy/net/tcp/scpi/__init__.py"),
      ("Np05bConnection", "runtimepy/net/tcp/telnet/np_05b.py"),
      ("AsyncCommandProcessingMixin", "runtimepy/mixins/async_command.py")],
     BND + "A virtual clock with whole-number times; lines arrive whole.")

prop("P32", "Configured applications consist of exactly what is configured",
     "Every port is the one asked for (overridden, or a free one for zero) and stands "
     "for its number everywhere it is named, and every client, server, task, struct and "
     "process in the configuration is registered once under its name with its "
     "arguments, or the configuration is refused. Applications run the configured "
     "methods in the configured stages, also when asked to wait to stop, and loading "
     "leaves the configuration unchanged. Files are found, loaded once and combined.",
     ["inputs"],
     "3 ports of every number with any override; 2 entries of each of 7 kinds by every "
     "name of a factory; 4 shapes of methods; 2 files with every value of their items",
     "Tests load the few configurations that come with the package.",
     ["runtimepy/net/arbiter/config/__init__.py",
      "runtimepy/net/arbiter/config/codec.py", "runtimepy/net/arbiter/config/util.py",
      "runtimepy/net/arbiter/imports/__init__.py"],
     [("ConfigConnectionArbiter", "runtimepy/net/arbiter/config/__init__.py"),
      ("ConnectionArbiterConfig", "runtimepy/net/arbiter/config/codec.py"),
      ("fix_args/list_adder", "runtimepy/net/arbiter/config/util.py")],
     BND + "Files and imports are replaced by tables.")

prop("P33", "Peer programs mirror their environment, take commands, and end cleanly",
     "The host of a peer program has the program's environment with the values it had "
     "at the start and every change after that, in order, however its output is split, "
     "and what the program logs. Commands from the host for the peer are done there, in "
     "order, and refused ones change nothing. A program that ends, fails or loses its "
     "input is cleaned up and its process ended, with what it wrote in the queues that "
     "were asked for.",
     ["inputs", "schedules", "faults"],
     "2 (3) changes of 2 channels to every value and output split anywhere; 2 of 9 "
     "commands; 2 log records with arguments of 5 types; an end at every time of 20",
     "Tests run one program that works, in real time.",
     ["runtimepy/subprocess/peer.py", "runtimepy/subprocess/program.py",
      "runtimepy/subprocess/interface.py", "runtimepy/subprocess/protocol.py",
      "runtimepy/message/interface.py"],
     [("RuntimepyPeer", "runtimepy/subprocess/peer.py"),
      ("PeerProgram", "runtimepy/subprocess/program.py"),
      ("RuntimepyPeerInterface", "runtimepy/subprocess/interface.py"),
      ("RuntimepySubprocessProtocol", "runtimepy/subprocess/protocol.py"),
      ("JsonMessageInterface", "runtimepy/message/interface.py")],
     BND + "Processes and pipes are replaced by queues; a virtual clock.")

prop("P29", "Browsers are shown the values, changes and logs of the tabs they show",
     "After every frame, a browser that shows a tab has the current value of every "
     "channel of that environment, and every change since it was shown as a point, once "
     "and in order, whatever was shown, hidden and changed before; logs of initialised "
     "tabs arrive once. Commands from a tab do what they say in its environment, one of "
     "the open browsers keeps the interface's state updated, and nothing is observed any "
     "more once a browser is gone. Pages have a row with the right controls for every "
     "channel, show descriptions as they are, and are those of their own application.",
     ["inputs", "histories"],
     "3 (4) steps of showing, hiding, frames and changes to any value; 2 browsers and 2 "
     "tabs; 3 browsers of which one closes; 6 kinds of channels with any description of "
     "2 (3) special characters",
     "Tests open one browser session at most and never compare what it has been told "
     "with the environment.",
     ["runtimepy/net/server/websocket/__init__.py",
      "runtimepy/net/server/websocket/state.py",
      "runtimepy/net/server/app/env/tab/message.py",
      "runtimepy/net/server/app/create.py"],
     [("handle_shown_state/handle_message",
       "runtimepy/net/server/app/env/tab/message.py"),
      ("TabState.frame", "runtimepy/net/server/websocket/state.py"),
      ("ui_handler/_poll_ui_state", "runtimepy/net/server/websocket/__init__.py"),
      ("create_cacheable_app", "runtimepy/net/server/app/create.py")],
     BND + "Websockets are replaced by recorders; the JavaScript is not covered.")

prop("P30", "Metrics are what was transferred, written and measured",
     "Every message sent or received over TCP, UDP or a program's standard streams, and "
     "every event written, is counted once with its number of bytes in the right "
     "direction, rates are per second (in kilobits of what was transferred), resetting "
     "clears everything, and the published channels are those values. Iterations of "
     "tasks are counted and timed from start to end, with the longest and shortest and "
     "those that took more than the period.",
     ["inputs", "histories"],
     "3 (5) messages of any size, polls, resets and updates; 3 chunks of 3 sizes over "
     "any connection; 3 (5) iterations at every time",
     "Tests log metrics without looking at them.",
     ["runtimepy/metrics/channel.py", "runtimepy/metrics/connection.py",
      "runtimepy/metrics/task.py", "runtimepy/mixins/environment.py"],
     [("ChannelMetrics", "runtimepy/metrics/channel.py"),
      ("PeriodicTaskMetrics.measure", "runtimepy/metrics/task.py"),
      ("register_channel_metrics", "runtimepy/mixins/environment.py"),
      ("PeerProgram._process_io", "runtimepy/subprocess/program.py")],
     BND + "The averaging itself is vcorelib's.")

prop("P34", "Websocket connections carry messages both ways and count them",
     "Every message queued for a websocket connection is sent once, in order and as "
     "what it was (text or binary), every message received is processed once, in order, "
     "until either side or the application ends the connection, and those transferred "
     "are counted with their bytes. A connection that is closed by its peer is disabled, "
     "one that ends is closed, and a server keeps a connection open exactly as long as "
     "it is enabled.",
     ["inputs", "schedules", "faults"],
     "2 messages each way of up to 2 characters or bytes, at every time of up to 3 and "
     "with 5 ends at every time; initialisations that work, fail or raise; 3 clients",
     "Tests send fixed messages over working connections.",
     ["runtimepy/net/websocket/connection.py"],
     [("WebsocketConnection", "runtimepy/net/websocket/connection.py")],
     BND + "The websockets package is replaced by a stub with its documented "
     "behaviour.")

prop("P35", "Simulated time moves by the steps asked for, and so do its waves",
     "Every toggle of a stepper is as many iterations of its structs as asked for, each "
     "after one step of the simulated time (if time is simulated), and those that other "
     "tasks poll are left to them; a stepping task toggles every stepper once per "
     "iteration while it isn't paused. Outputs of sources are their values times their "
     "amplitudes, sines and cosines follow changes of amplitude, phase and number of "
     "steps at once, and telemetry is captured every iteration and flushed every so many, "
     "for every setting including zero.",
     ["inputs", "histories"],
     "2 (3) toggles or changes, steps of any size up to 2^40; every sequence of 3 kinds "
     "of structs; 3 steppers and 3 iterations; an iteration and 3 changes of a wave",
     "Tests step a fixed configuration and never look at the outputs.",
     ["runtimepy/control/step.py", "runtimepy/control/source.py",
      "runtimepy/mixins/trig.py", "runtimepy/telemetry/sample.py"],
     [("ToggleStepper", "runtimepy/control/step.py"),
      ("PrimitiveSource", "runtimepy/control/source.py"),
      ("TrigMixin", "runtimepy/mixins/trig.py"),
      ("SampleTelemetryTask.dispatch", "runtimepy/telemetry/sample.py")],
     BND + "Sines and cosines themselves are those of the math module.")

prop("P36", "Captured logs are whole, filtered and levelled as asked for",
     "Every line added to a captured file is logged exactly once, whole and in order, "
     "however it is split between polls and whatever other files do, and lines that were "
     "there before aren't. Text that isn't safe to log reaches list loggers only, and a "
     "logger's level is always that of its channel.",
     ["inputs", "histories"],
     "4 (5) characters of 3 kinds in 3 parts of any size; 2 files with 2 lines each; 3 "
     "handlers of 2 kinds; 2 changes of level of 6 kinds",
     "Tests capture one whole line.",
     ["runtimepy/mixins/logging.py"],
     [("LogCaptureMixin", "runtimepy/mixins/logging.py"),
      ("handle_safe_log", "runtimepy/mixins/logging.py"),
      ("LoggerMixinLevelControl", "runtimepy/mixins/logging.py")],
     BND + "Files are replaced by texts that grow.")

prop("P37", "The terminal interface shows every channel's current value",
     "After every iteration the terminal shows the name and the current value of every "
     "channel, enumerations by name, and nothing left over from values or window sizes "
     "before. The cursor moves exactly as asked for, but never out of its window.",
     ["inputs", "histories"],
     "2 changes of 4 channels, keys or sizes, each followed by an iteration; windows of "
     "any size up to 100 and 2 (3) moves of up to 200",
     "Tests run the interface on a mock that draws nothing.",
     ["runtimepy/tui/cursor.py", "runtimepy/tui/mixin.py", "runtimepy/tui/task.py",
      "runtimepy/tui/channels/__init__.py"],
     [("ChannelTui", "runtimepy/tui/channels/__init__.py"),
      ("Cursor", "runtimepy/tui/cursor.py"), ("TuiMixin", "runtimepy/tui/mixin.py")],
     BND + "Curses is replaced by a grid of characters.")

prop("P38", "Addresses are taken as given, and probing sockets leaves none open",
     "Addresses keep every part they are given with and have the family they look like, "
     "names are used where known, and free ports are those of a socket that was bound. "
     "The MTU found out is that of the route, or the fallback if it can't be, every "
     "socket used for that is closed even when a call fails, and an attempt to connect "
     "gives its result or nothing with the error logged.",
     ["inputs", "faults"],
     "Every port, flow and scope as arguments of 8 kinds; every MTU; a failure of any "
     "call; a result of every value or 3 exceptions",
     "Tests use the loopback interface, where no call fails.",
     ["runtimepy/net/util.py", "runtimepy/net/mtu.py"],
     [("normalize_host", "runtimepy/net/util.py"),
      ("get_free_socket", "runtimepy/net/util.py"),
      ("discover_mtu", "runtimepy/net/mtu.py")],
     BND + "The operating system's sockets and names are replaced by tables.")

prop("P39", "Servers give every client a connection of its own and close them all",
     "Everything a client sends arrives at its own connection of the server, once, whole "
     "and in order, echoes come back to it, and both ends of a pair are connected to "
     "each other. When a server, pair or endpoint ends, however clients arrive "
     "around that time, every connection is closed and nothing waits forever.",
     ["inputs", "schedules"],
     "2 (3) clients at every time of up to 3 and accepted after up to 2 iterations; one "
     "within 12 iterations around the stop; 3 (4) datagrams between 3 endpoints",
     "Tests connect one client at a time and stop when all's done.",
     ["runtimepy/net/tcp/connection.py", "runtimepy/net/udp/connection.py",
      "runtimepy/net/udp/protocol.py", "runtimepy/net/udp/queue.py",
      "runtimepy/net/arbiter/tcp/__init__.py", "runtimepy/net/arbiter/udp.py"],
     [("TcpConnection.serve", "runtimepy/net/tcp/connection.py"),
      ("TcpConnection.create_pair", "runtimepy/net/tcp/connection.py"),
      ("UdpConnection.create_pair", "runtimepy/net/udp/connection.py")],
     BND + "The event loop's servers, streams and datagrams are replaced by ones in "
     "memory that lose nothing.")

prop("P40", "Recordings of environments hold every change and load back",
     "A recording has every change of the channels it was asked for, of all "
     "environments that were, in order and with their times, whether the program that "
     "was recorded ends or fails, and it's the same however often it's read. A name "
     "stands for one environment until all are cleared, and one that's cut off has "
     "all events before that.",
     ["inputs", "histories", "faults"],
     "2 (3) changes of 3 channels and a word of bit fields in 2 environments to any "
     "value; a recording cut off at any byte; 3 registrations of 2 environments",
     "Tests record an environment in which nothing changes.",
     ["runtimepy/channel/environment/command/__init__.py",
      "runtimepy/channel/registry.py"],
     [("GlobalEnvironment", "runtimepy/channel/environment/command/__init__.py"),
      ("ParsedEvent", "runtimepy/channel/registry.py")],
     BND + "Times come from a clock of the harness.")

prop("P41", "Commands run exactly what their arguments say, and exit with its result",
     "Every command of the program runs what it was given, with each port, host, rate, "
     "size and number of iterations as it is and each flag for what it says, and defaults "
     "for the rest. The program exits with the result of that, which is an error exactly "
     "if it failed.",
     ["inputs", "faults"],
     "Every port, size, number of iterations and exit code, every combination of flags, "
     "lists of rates, hosts and configurations",
     "Tests run a few command lines and look at the exit code only.",
     ["runtimepy/commands/arbiter.py", "runtimepy/commands/common.py",
      "runtimepy/commands/server.py", "runtimepy/commands/task.py",
      "runtimepy/commands/tftp.py", "runtimepy/commands/mtu.py",
      "runtimepy/commands/tui.py", "runtimepy/entry.py", "runtimepy/app.py"],
     [("arbiter_cmd", "runtimepy/commands/arbiter.py"),
      ("server_cmd", "runtimepy/commands/server.py"),
      ("tftp_cmd", "runtimepy/commands/tftp.py"), ("main", "runtimepy/entry.py")],
     BND + "Networks, windows and files are replaced by ones of the harness.")

prop("P42", "Web applications are at their configured paths and have all of their parts",
     "An application is served at exactly the paths that are configured for it, "
     "prefixes lead to it by redirects without replacing what was configured, the "
     "landing page is at its own paths, and anything else goes to the default "
     "application or isn't served. A page has one tab for each environment of the "
     "application (connections, tasks, structs, peers and a peer program's host), "
     "bound to the commands of that environment, of which only the first is active, and "
     "with the script of its kind; it has every script and style it needs once and in "
     "order, and markdown as it was written. A browser is started for each server port "
     "of a protocol that this is configured for, and a missing browser is no error.",
     ["inputs", "configurations"],
     "Every prefix of up to 4 characters and what was configured before, every set of "
     "environments, paths, ports and options of browsers",
     "Tests serve one page of one configuration and don't look at what's in it.",
     ["runtimepy/net/html/arbiter.py", "runtimepy/net/html/__init__.py",
      "runtimepy/net/html/bootstrap/tabs.py", "runtimepy/net/server/app/__init__.py",
      "runtimepy/net/server/app/base.py", "runtimepy/net/server/app/tab.py",
      "runtimepy/net/server/app/env/__init__.py", "runtimepy/net/server/html.py",
      "runtimepy/net/server/app/landing_page.py"],
     [("setup", "runtimepy/net/server/app/__init__.py"),
      ("web_app_paths", "runtimepy/net/html/arbiter.py"),
      ("populate_tabs", "runtimepy/net/server/app/env/__init__.py"),
      ("append_kind", "runtimepy/net/html/__init__.py")],
     BND + "What scripts do in a browser isn't covered.")

prop("P26", "Waits end on the first satisfying change; samplers miss nothing",
     "Waiting for a primitive to compare in some way with a value ends at once "
     "when it already does, otherwise at the first change that makes it so, and "
     "otherwise at the timeout, with a result telling whether nothing changed "
     "or no change sufficed. Sampling yields every change before the timeout (or "
     "until the requested count) exactly once, in order, with its value and "
     "update time, however slowly samples are consumed. Neither leaves anything "
     "registered with the primitive.",
     ["inputs", "schedules"],
     "every awaited and written value and every time of up to 3 writes relative "
     "to every timeout",
     "The outcome depends on the order of changes and timeouts, which real-time "
     "tests cannot control.",
     ["runtimepy/primitives/evaluation.py", "runtimepy/primitives/int.py",
      "runtimepy/primitives/bool.py"],
     [("evaluate/sample_for", "runtimepy/primitives/evaluation.py")],
     BND + "A virtual clock with integer times up to 60; up to 4 writes.")
