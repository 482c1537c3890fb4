#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Re-encoding a parsed log reproduces it byte for byte",
  "For every well-formed ULog (canonical text, flag bits of 40 bytes, boolean bytes 0 or 1, no surplus bytes inside a message), parsing with header, timestamps and padding included and no allow-list, then encoding every yielded message in order, produces exactly the original bytes. This holds for every message type, including tagged log strings, unsubscribe messages, unknown message types and structures nested up to 24 levels deep (deeper ones may be refused), and for data messages whose trailing padding was omitted.",
  ["inputs","histories"], "all well-formed logs: every message kind, every field type/array size/nesting, every value bit pattern, every order of messages",
  "test_roundtrip re-emits four fixed sample files; those contain no tagged log strings, no unsubscribe messages, no unknown types, few types and no boundary values.",
  ["core/src/encode.rs","core/src/parser.rs","core/src/model.rs","core/src/formats.rs","core/src/display.rs"],
  [("Encode impls mirror the parse functions","core/src/encode.rs"),("padding kept as fields, filter_fields off","core/src/parser.rs:parse_padding")],
  ["concatenated output of Encode::encode for every yielded message vs the input bytes"])

p("C02", "Well-formed messages decode to exactly the values in the log",
  "Every message of a well-formed log is yielded exactly once, in file order, as the variant for its type byte, and every field of it (names, types, array lengths, nesting, timestamps, ids, keys, flags, text, and the numeric value of every scalar and array element, little-endian, bit-exact for floats) equals what the ULog specification assigns to those bytes. The timestamp reported for a data message is its top-level timestamp field, wherever in the structure that field stands.",
  ["inputs"], "all field types, array sizes, nesting shapes, field orders, byte values and message kinds",
  "Tests compare a handful of float fields of one sample file; most types, array sizes, nesting shapes and byte patterns are never decoded and compared.",
  ["core/src/parser.rs","core/src/field_helpers.rs","core/src/message_buf.rs","core/src/formats.rs","core/src/model.rs"],
  [("parse_definition / parse_data dispatch","core/src/parser.rs"),("parse_field_value / parse_array_field","core/src/parser.rs"),("MessageBuf little-endian cursor","core/src/message_buf.rs")],
  ["items yielded by ULogParser vs an independent reference decoder"])

p("C03", "Data messages are decoded by the subscription currently in force",
  "After any history of format, subscribe, unsubscribe and other messages, a data message is decoded with the format of the latest subscription made for its message id, and is an error if that id has been unsubscribed since or was never subscribed (before the first subscription of the log it is at least never decoded). Format definitions take effect only before the first subscription (the latest definition of a name wins), a subscription to an undefined format is an error that changes nothing, log strings and dropouts are decoded in either section, and the instance index is reported for a data message exactly when some subscription so far used that message name with a non-zero instance.",
  ["histories"], "all message sequences up to a depth over an alphabet of colliding names, ids and instances, from every reachable parser state",
  "Tests run one recorded history (formats, then subscriptions, then data); redefinition, re-subscription, unsubscription, nested redefinition and out-of-section messages never occur.",
  ["core/src/parser.rs"],
  [("state machine in next_sub","core/src/parser.rs"),("subscriptions / formats / message_name_with_multi_id maps","core/src/parser.rs")],
  ["item yielded for each message vs reference state machine"],
  [("state","section of the log","ULogParser.state"),("formats","name -> definition","ULogParser.formats"),("subscriptions","msg_id -> subscription","ULogParser.subscriptions"),("message_name_with_multi_id","names seen with instance > 0","ULogParser")])

p("C04", "A subscription allow-list filters exactly the unlisted data messages",
  "With an allow-list, a data message whose current subscription's message name is listed is yielded exactly as it would be without the list, and every other subscribed data message is yielded as exactly one Ignored item carrying its type, without its payload being decoded; all other messages are unaffected. This holds for any list and any history, including ids that are unsubscribed and then reused for a different name, and Ignored items contribute no bytes when re-encoded, so a filtered log re-encodes to a well-formed log.",
  ["configurations","histories"], "all allow-lists over a set of colliding names x all subscribe/unsubscribe/data histories up to a depth",
  "One test checks one list of three names on one file until each name was seen once; no id reuse, unsubscription, empty list or prefix name is tried.",
  ["core/src/parser.rs","core/src/builder.rs","core/src/encode.rs"],
  [("SubscriptionFilter.update_ids / is_allowed","core/src/parser.rs"),("ULogParserBuilder::set_subscription_allow_list","core/src/builder.rs")],
  ["items with the list vs items without it, per message"],
  [("allowed_subscription_ids","ids whose current name is listed","SubscriptionFilter")])

p("C05", "A truncated log yields its complete messages and never an invented one",
  "For a log cut at any byte, the parser yields exactly the messages that lie completely before the cut, unchanged, and then reports an error if the cut fell inside a message body (a cut inside a message's length/type prefix may also end quietly) and afterwards stays at end of stream. A file cut inside the file header is reported as an error. No message is ever made up from missing bytes.",
  ["crash_points","inputs"], "every cut position of logs covering every message kind as the cut message, for every kind of reader",
  "No test truncates a file; the samples are complete.",
  ["core/src/parser.rs","core/src/datastream.rs"],
  [("eof flag of DataStream checked in read_message_header, read_message and read_file_header","core/src/parser.rs")],
  ["items yielded for each prefix vs the items of the full log"],
  [("eof","reader hit end of input","DataStream.eof")])

p("C06", "How the reader splits its data never changes the result",
  "The sequence of items depends only on the bytes of the log: short reads of any size at any position and interrupted reads that must be retried give the same items as reading the log in one piece.",
  ["fault_sequences","inputs"], "all placements of short reads and Interrupted results, up to a deviation bound, and all uniform chunk sizes; all compositions on tiny logs",
  "Tests only use BufReader over a file with its default 8 KiB buffer.",
  ["core/src/datastream.rs","core/src/parser.rs"],
  [("Read::read_exact for every access","core/src/datastream.rs")],
  ["items under each read schedule vs items from a slice"])

p("C07", "A reader failure is reported once and never followed by invented data",
  "If the reader fails at any byte with any error kind other than interruption, or unexpected end of file (which counts as end of input), the messages completely read before are yielded unchanged, then an error is yielded that carries the reader's error, and no later item is a message that is not in the log at that place, even if the reader works again. The stream then ends, so a loop over it terminates also when the reader keeps failing.",
  ["fault_sequences"], "every failing byte position x every error kind x permanent or transient failure",
  "No test uses a failing reader.",
  ["core/src/datastream.rs","core/src/parser.rs"],
  [("DataStream::read_exact error mapping","core/src/datastream.rs"),("state after a failed read","core/src/parser.rs:next_sub")],
  ["items yielded under each injected failure"])

p("C08", "No input makes the parser panic, hang or use unbounded memory",
  "For every byte sequence given as a log, under every option, iterating to the end and formatting, encoding and flattening every item never panics, overflows the stack or aborts; the iteration ends after at most one item per three input bytes plus two, and the memory and time for one message stay bounded by a fixed amount plus a fixed multiple of its size and of the definitions read so far. Hostile definitions (huge or zero array sizes, self-referential, mutually recursive or exponentially nested formats) give errors.",
  ["inputs"], "all small mutations of rich logs, all reference graphs of three formats, all hostile sizes and short payloads for every message type",
  "Tests feed only valid files.",
  ["core/src/parser.rs","core/src/tokenizer.rs","core/src/formats.rs","core/src/field_helpers.rs","core/src/message_buf.rs"],
  [("bounds checks in MessageBuf::advance","core/src/message_buf.rs"),("limits on array size and nesting","core/src/field_helpers.rs, core/src/parser.rs"),("number tokens","core/src/tokenizer.rs")],
  ["panic/abort/timeout/peak-memory monitor around a full iteration"])

p("C09", "One malformed message costs exactly one error and nothing else",
  "A message whose framing is intact but whose content is malformed (payload too short for its type, unknown subscription or format, invalid UTF-8, invalid log level, bad key or format text, unsupported parameter type, missing or mistyped timestamp) is yielded as exactly one error in its place, changes no parser state, and all other messages are yielded exactly as if it were absent.",
  ["inputs","histories"], "every malformed message kind inserted at every position (and every pair of positions) of rich base logs",
  "No test contains a malformed message.",
  ["core/src/parser.rs","core/src/formats.rs"],
  [("whole message is read before it is parsed; state updated after a successful parse only","core/src/parser.rs:next_sub")],
  ["items with the malformed message inserted vs items without it"])

p("C10", "Nothing at or past the first appended-data offset is read as a message",
  "When the flag-bits message says data is appended, messages that end at or before the first non-zero offset are yielded as usual and no item contains any byte at or beyond that offset: a message that straddles it is an error or end of stream, and then the stream ends. When the flag is clear, or all offsets are zero, or the offset lies past the end of the file, every message of the file is yielded.",
  ["inputs"], "every offset value over the length of a log (also beyond 64 KiB and near the integer limits), in each of the three slots, flag set or clear",
  "The samples carry no appended data.",
  ["core/src/parser.rs","core/src/model.rs"],
  [("max_bytes_to_read vs datastream.num_bytes_read","core/src/parser.rs")],
  ["items yielded for each offset vs the reference decoder on the truncated range"],
  [("max_bytes_to_read","limit of the readable part","ULogParser"),("num_bytes_read","stream position","DataStream")])

p("C11", "Logs with unknown incompatible features are refused",
  "A flag-bits message with any incompatible-feature bit other than bit 0 of the first byte set is reported as an error; with only known bits it is yielded with all its flags and offsets unchanged, whatever the compatible-feature bits are. The derived predicates report exactly bit 0 of the first compatible byte (default parameters) and bit 0 of the first incompatible byte (appended data).",
  ["inputs"], "all single bits and all pairs of the 64 incompatible and 64 compatible bits",
  "The samples have all flags clear.",
  ["core/src/parser.rs","core/src/model.rs"],
  [("has_unknown_incompat_bits","core/src/parser.rs:parse_flag_bits")],
  ["item yielded for the flag-bits message"])

p("C12", "Include options remove exactly what they name",
  "Switching header, timestamp or padding inclusion changes the yielded items only by dropping the header item, the top-level timestamp fields of data messages, and padding fields (at every nesting depth) respectively; every other item, field, value, order and the reported message timestamp stay the same in all eight combinations.",
  ["configurations","inputs"], "all 8 option combinations x all structure shapes with timestamps and padding at every position and depth",
  "Tests only use the all-on and the default combination and never compare them.",
  ["core/src/parser.rs","core/src/builder.rs"],
  [("LoggedData::filter_fields, parse_padding","core/src/parser.rs"),("builder flags","core/src/builder.rs")],
  ["items under each combination vs projection of the all-on items"])

p("C13", "Parsing streams: no read-ahead and no growth",
  "When an item is yielded, the parser has taken from the reader exactly the bytes up to the end of that message, so messages are available as soon as they are complete. The memory held between items does not grow with the number of messages read, except for new format and subscription definitions.",
  ["inputs","histories"], "after every item of every enumerated log; every message kind repeated hundreds of times",
  "No test observes the read position or memory.",
  ["core/src/parser.rs","core/src/datastream.rs"],
  [("message-at-a-time reads","core/src/parser.rs:read_message_header, read_message")],
  ["bytes taken from a counting reader at each item; live heap bytes from a counting allocator"])

p("C14", "Encoding yields one well-framed message or an error",
  "Encoding any message value that a log can contain, or such a value with over-long content, either fails or writes exactly one message whose length field equals its content length, whose type byte matches its kind, and which parses back to an equal value; content longer than 65535 bytes or a typed key longer than 255 bytes is an error, never a silently shortened length. Encoding is deterministic and independent of how often it is repeated.",
  ["inputs"], "all message kinds x content and key sizes around every length limit, plus all small constructed values",
  "Tests only encode messages that came from a file, so limits are never reached.",
  ["core/src/encode.rs"],
  [("length prefixes in UlogMessage::encode and key lengths","core/src/encode.rs")],
  ["bytes written by Encode::encode"])

p("C15", "Encoding survives short writes and reports every writer failure",
  "For every way a writer may accept data (short writes, interruptions) the bytes it receives are the same, and if the writer fails at any byte then encoding returns that error and the bytes accepted before are a prefix of the complete encoding.",
  ["fault_sequences"], "every failing byte and every short-write schedule up to a bound for every message kind",
  "Tests write only to files and vectors that never fail.",
  ["core/src/encode.rs"],
  [("write_all and ? everywhere","core/src/encode.rs")],
  ["result of encode and bytes accepted by a fault-injecting writer"])

p("C16", "Derived streams dispatch every message to the right variant",
  "For any history, a stream derived for an enum (timestamps and padding included, no file header) yields a mapped struct for exactly those data messages whose current subscription has the struct's message name and instance id, with the values in the log and in file order. Every other parser item goes to the forward_other variant unchanged if there is one and is dropped otherwise, except that subscriptions are handled internally unless forwarding was asked for, and every parse error is yielded in place; an id reused by a different subscription is never decoded as the old struct.",
  ["histories","configurations"], "all histories up to a depth over colliding names, ids and instances, for several enum shapes and builder settings",
  "Tests follow one recorded history with one instance id per enum.",
  ["macros/src/lib.rs","core/src/macro_utils.rs","core/src/parser.rs"],
  [("generated Iterator::next and subs map","macros/src/lib.rs")],
  ["items of the derived stream vs reference model"],
  [("subs","msg_id -> accessor","generated iterator struct")])

p("C17", "Derived fields convert only from the matching logged type",
  "A struct field receives a logged value exactly when the field's Rust type corresponds to the logged type (each integer width and sign, f32/f64, bool, char, vectors of these for arrays, derived structs for nested structures and vectors of them for arrays of structures); the value is then identical. Every other combination yields a type mismatch error for that message and never a converted, truncated or default value.",
  ["inputs","programs"], "the full matrix of Rust field types x logged types, with boundary values",
  "Tests map f32, u64, u8, Vec<f32> and one nested struct to their matching types only.",
  ["core/src/macro_utils.rs","macros/src/lib.rs"],
  [("FromField impls","core/src/macro_utils.rs")],
  ["Result of the derived stream for each pair"])

p("C18", "Derived fields are found by name wherever they stand",
  "Whatever order, extra fields, padding or nesting a logged format has, each struct field gets the value of the logged field of its (possibly overridden) name; a missing required field is an invalid-field error that names exactly the missing fields, a missing optional field is None, and a present optional field is Some. This never panics, also when the padding at the end of the message is omitted and for nested structures and (non-empty) arrays of structures.",
  ["inputs","programs"], "all permutations and subsets of the mapped fields with extras and padding, at top level, nested and in arrays",
  "Tests use the single field order of the sample file and one missing field.",
  ["macros/src/lib.rs","core/src/macro_utils.rs","macros/src/utils.rs"],
  [("generated from_format index lookup and get_data","macros/src/lib.rs")],
  ["struct values or error of the derived stream"])

p("C19", "Derived builder settings do what they say and nothing else",
  "For every combination and order of builder calls, exactly the added subscription names are additionally delivered as raw data through the forward_other variant, subscription messages of unmapped names or instances are delivered exactly when forwarding is on, and mapped data is unaffected. On an enum without a forward_other variant each such request is a configuration error, and a request to not forward is accepted.",
  ["configurations"], "all sequences of builder calls up to a length x enum with/without forward_other x log histories",
  "Tests try each setting once, stopping at the first matching message.",
  ["macros/src/lib.rs"],
  [("generated builder, extend_allow_list, forward_subscriptions","macros/src/lib.rs")],
  ["items of the configured stream vs reference model"])

p("C20", "Format definitions and typed keys follow the ULog grammar",
  "A format definition is accepted exactly when its text is a name (letters, digits and _, for messages also - and /; not starting with a digit), a colon and a sequence of type, optional bracketed size, field name and semicolon, and the definition yielded lists exactly those names, types, sizes and fields in order; info, multi-info and parameter keys give the same type and name as the same text in a format. Any other definition text, including sizes too large for the platform, is an error; the canonical text of a definition re-encodes identically.",
  ["inputs"], "all token sequences up to a length over the token alphabet, and all character strings up to a length over a small alphabet",
  "Tests parse three fixed definitions.",
  ["core/src/formats.rs","core/src/tokenizer.rs","core/src/parser.rs"],
  [("tokenize regular expression","core/src/tokenizer.rs"),("parse_format / parse_field","core/src/formats.rs")],
  ["FormatDefinition item or error vs reference grammar"])

p("C21", "Parsers are deterministic, independent and silent",
  "The items of a log, from a parser or a derived stream, do not depend on any other parser, derived stream or encoder in the process: for every interleaving of several parsers, on one thread or several, each yields what it yields alone, and parsing the same log again gives the same items (error texts included). Parsing and encoding write nothing to standard output or standard error, and results do not depend on the log level.",
  ["schedules","configurations"], "all interleavings of the steps of two and three parsers over logs with colliding names and ids",
  "Tests run parsers one after another and do not capture output.",
  ["core/src/parser.rs","core/src/tokenizer.rs","core/src/datastream.rs"],
  [("no shared mutable state; TOKEN_REGEXP is read-only","core/src/tokenizer.rs")],
  ["items per parser under each interleaving; captured stdout/stderr"])

p("C22", "Text, scalar and flattened views show exactly the decoded values",
  "Character arrays convert to text as UTF-8 with invalid bytes replaced, trimming removes all trailing NULs and nothing else, and raw byte views equal the stored bytes. Splitting an array gives its elements in order, flattening a data message gives every leaf once, in order, under its path, and the printed form of every scalar or primitive-array value, info, parameter, dropout mark and log string shows exactly its decoded contents; a field's type says whether it is an array.",
  ["inputs"], "all byte strings up to a length over a boundary alphabet; all field types and nesting shapes; all log levels and default-type bits",
  "No test calls these views.",
  ["core/src/model.rs","core/src/display.rs"],
  [("CCharSlice, to_scalars, flatten","core/src/model.rs"),("Display impls","core/src/display.rs")],
  ["return values vs reference renderings"])

p("C23", "Byte cursors return consecutive bytes and fail without moving",
  "For every sequence of operations, the message buffer cursor returns the little-endian values of consecutive bytes, reports the exact number of bytes left, and answers a request for more than is left with an error that consumes nothing. The data stream likewise returns consecutive values, and skipping moves by exactly the requested amount or to the end of input, whichever comes first, reporting how far it went.",
  ["histories","inputs"], "all operation sequences up to a depth on buffers of every small length, including requests near the integer limit and readers that return short reads",
  "Tests run one fixed sequence each.",
  ["core/src/message_buf.rs","core/src/datastream.rs"],
  [("MessageBuf::advance","core/src/message_buf.rs"),("DataStream::skip","core/src/datastream.rs")],
  ["return value and remaining length after each operation"],
  [("current_index","cursor","MessageBuf"),("num_bytes_read","stream position","DataStream")])

p("C24", "The thread_safe build gives the same results and can cross threads",
  "With the thread_safe feature, every log yields the same items and the same re-encoding as without it, every yielded message can be moved to and read from other threads, and reading, cloning parts of and dropping a shared message on two threads in any order changes nothing observable.",
  ["configurations","schedules"], "the enumerated log corpus under both builds; all interleavings of clone/read/encode/drop steps on two threads",
  "The feature's only test is a compile-time Send/Sync assertion; no message is ever parsed with it.",
  ["core/src/model.rs","core/Cargo.toml"],
  [("Shared<T> alias","core/src/model.rs")],
  ["digest of all items in both builds; observations on threads under a controlled scheduler"])

p("C25", "Every supported derive input compiles and maps the names it states",
  "Any enum of one or more single-struct tuple variants, whatever the enum, variant and struct names (other than names of the std prelude) and visibility and whether or not they are in the same module, with or without one forward_other variant at any position, and any named-field struct without generics, compiles with the derives. It then maps the subscription name given or the snake-case form of the struct name, the given instance id or 0, and the given field name or the snake-case form of the field name (without a raw-identifier prefix).",
  ["programs"], "a grid of enum names x variant names x forward_other position x attribute combinations x struct and field name shapes",
  "Tests use one enum name and one variant name throughout, so a name baked into the generated code goes unnoticed.",
  ["macros/src/lib.rs","macros/src/utils.rs"],
  [("token generation in derive_logged_struct / derive_logged_enum","macros/src/lib.rs")],
  ["compilation of each generated program and the items its stream yields"])

p("C26", "Lookups give the definitions in force; the allow-list may change at any time",
  "At any point of a read (before the first item, between items, after errors and after the end) looking up a message name returns exactly the format definition in force at that point, or an undefined-format error carrying that name, and looking up an id returns the subscription in force, or an undefined-subscription error carrying that id. Lookups never change what is read later. An allow-list set on the parser at any point replaces the earlier one for all later data messages and only those: data of subscriptions, existing or later, with a listed name is decoded, and other subscribed data is passed through undecoded.",
  ["histories"], "all message histories up to a depth with lookups of every mentioned and similar name and id after every item; all positions and pairs of list changes",
  "No test looks anything up after a redefinition or an error, or changes the list after the first item.",
  ["core/src/parser.rs"],
  [("get_format, get_subscription, set_subscription_allow_list","core/src/parser.rs")],
  ["lookup results and items after each step"],
  [("formats","formats in force","ULogParser"),("subscriptions","subscriptions in force","ULogParser"),("allowed_subscription_ids","ids currently decoded","SubscriptionFilter")])

p("C27", "Misuse of the derives is a compile error, never silently ignored",
  "Applying ULogData to anything but a non-generic struct with named fields (unit structs aside), or ULogMessages to anything but a non-generic enum, fails to compile, and so does an enum variant that is neither a unit variant nor a tuple variant with exactly one field, a mapped variant whose type is not a ULogData struct, a forward_other variant whose type is not the message type, and a second forward_other variant. Every yule_log attribute that is unknown, mistyped, out of range, repeated or misplaced (on the enum, a variant, a variant's field, a struct or a struct's field) also fails to compile, wherever it stands and whatever accompanies it, while the same program without the mistake compiles.",
  ["programs"], "all attribute arguments (supported, misspelt, mistyped, out of range, repeated, combined) x all sites x enum shapes, and all unsupported item shapes, each next to its corrected twin",
  "Tests cannot contain programs that must not compile, and the repository has no compile-fail tests.",
  ["macros/src/lib.rs"],
  [("checks at the start of both derives; attribute parsing","macros/src/lib.rs")],
  ["the compiler's verdict on each program"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
