p("C12", "What is encoded decodes to an equal message",
  "A message that is encoded successfully decodes again, with the same schema, to an equal message, whichever input and output mode is used.",
  ["inputs"], "every message value", "values are sampled", [D, S], [("codec", S)],
  na="equality of values after two whole transformations is a numerical statement over run-time data; its structural parts (slot agreement, error propagation, presence) are separate properties")
p("C22", "Varint encoding and decoding are numerically exact",
  "Every integer, zig-zag, bool and enum value is written as the varint the wire format prescribes and read back to the same value; overlong and overflowing varints are handled as documented.",
  ["inputs"], "every 64-bit value", "values are sampled", ["include/hpp_proto/binpb/varint.hpp"], [("shift_mix_parse_varint", "include/hpp_proto/binpb/varint.hpp")],
  na="bit-exact arithmetic of the shift-mix algorithm is a statement about values, not about the shape of the code; it needs a solver or an exhaustive run, which are other families")
p("C23", "JSON mapping follows the canonical protobuf JSON mapping",
  "Messages convert to canonical protobuf JSON and back without loss, and malformed JSON is rejected.",
  ["inputs"], "every message and JSON text", "values are sampled", ["include/hpp_proto/json.hpp", "include/hpp_proto/json/"], [("json codecs", "include/hpp_proto/json/")],
  na="the JSON headers need the glaze library, which is not in this sandbox, so no type-checked program or IR of them can be obtained")
p("C02", "No failure inside an operation is turned into success",
  "Binary decoding, encoding, merging and dynamic-message operations report failure whenever any of their parts fails: every error a nested field, element, map entry, group, extension, unknown field, length, tag or output write reports reaches the caller as a failure of the whole operation. The only exception is a decoded value which is not an enumerator of a closed enum, which is documented to be set aside; no other error is mistaken for it.",
  ["inputs", "faults"], "every input, message, output that fails, at every nesting",
  "An error path is only seen to be lost when that very step fails on that very field kind; the tests make few of them fail.",
  [D, S, X, "include/hpp_proto/binpb.hpp", "src/dynamic_message/factory.cpp"],
  [("deserialize_field / deserialize_* status results", D), ("serialize_field, archive writes", S), ("expected<> returning entry points", "include/hpp_proto/binpb.hpp")],
  "path-sensitive failure-propagation analysis over the instantiated IR",
  "Every call site of every fallible function in the instantiated codec; each failing outcome is followed to every return.")
p("C13", "String fields never carry invalid UTF-8 in or out",
  "Where a string field asks for UTF-8 validation (and the build does not disable it), binary decoding never succeeds with bytes in that field that are not valid UTF-8, and binary encoding never succeeds in writing such bytes: singular, repeated, map key and value, and oneof strings, owning and view messages, contiguous, padded and chunked input, every output mode, and dynamic messages alike. The whole string is looked at, however long it is.",
  ["inputs", "configurations"], "every string value in every field kind and mode",
  "The repository's tests are built here with validation disabled, and one unchecked field kind or mode is invisible to tests of another.",
  ["include/hpp_proto/binpb/utf8.hpp", D, S, X],
  [("utf8_validation_failed", "include/hpp_proto/binpb/utf8.hpp"), ("deserialize_field of byte ranges, deserialize_packed_repeated_padded", D), ("serialize_field of byte ranges", S), ("field_deserializer::deserialize, field_serializer", X)],
  "must-pass dataflow: bottom-up path-sensitive summaries of unvalidated reads and writes",
  "All string paths of the instantiated codec with validation on; is_utf8 itself is third-party and trusted; which fields ask for validation is the generator's decision and not judged.")
p("C10", "Every gRPC call is completed exactly once, with its own status",
  "For all four kinds of call, on the client and on the server: starting a call either makes it or reports the failure through OnDone, never both or neither; a write whose message does not serialize is not sent and is reported as a failure; the last write is marked as the last; a callback call invokes the user's function exactly once with the status of the call, or the failure to read its response, and then deletes its reactor; a server call is finished at most once however finishing, failing writes and read completions coincide, with the handler's status if the reply serialized and with an error otherwise; a failed or cancelled operation which the handler does not take care of finishes the call with a matching status, and one it does take care of does not; success callbacks are invoked for successful operations only; every operation hands gRPC the buffer that was filled for it, in storage that outlives the operation; serialization options reach the codec; every method is registered and called under its own name and kind; nothing touches a reactor after the call that may delete it.",
  ["schedules", "faults", "inputs"], "every outcome of every gRPC operation and codec call, in every order gRPC permits",
  "The gRPC tests need a network and are not part of the build here; completions that race or fail need a peer failing at that very moment.",
  ["include/hpp_proto/grpc/client.hpp", "include/hpp_proto/grpc/server.hpp", "include/hpp_proto/grpc/serialization.hpp"],
  [("ClientCallbackReactor, CallbackUnaryCall, Stub", "include/hpp_proto/grpc/client.hpp"), ("ServerRPC, BasicServerReactor, ServerReactor, CallbackService", "include/hpp_proto/grpc/server.hpp"), ("write_binpb, read_binpb, SerializationTraits", "include/hpp_proto/grpc/serialization.hpp")],
  "path-sensitive typestate over the gRPC API calls of each adapter operation",
  "104 operations (four kinds of call, with and without options and optional callbacks) inlined to the gRPC API; interleavings are covered through the single-claim rule rather than enumerated. Exceptions thrown by handlers are outside.")
p("C03", "Lengths in the input are checked before they are used",
  "Binary decoding never skips, reads, copies, allocates or narrows its input by a length taken from the input without having compared that length with what is left of the input, for every wire type, known and unknown fields, packed and map fields, groups, extensions and dynamic messages, contiguous, chunked and padded input alike; a varint that runs past the end is rejected; a nested field that claims more bytes than are left is never accepted; and a message is accepted only when its content ends exactly at its end, a group only at its own end tag.",
  ["inputs"], "every byte sequence in every input mode", "A missing or off comparison shows only for lengths near a particular boundary, 2^31 or the end of a chunk, in one field kind.",
  [D, X, "include/hpp_proto/binpb/varint.hpp"],
  [("skip, split, deserialize_packed, number_of_varints, read_bytes, parse_packed_varints_*", D), ("deserialize, deserialize_group, do_skip_group, deserialize_sized", D), ("field_deserializer", X)],
  "taint analysis of input lengths with path-sensitive bounds comparisons (bottom-up summaries), compile-time witness for the region overlap",
  "Every extent use in the instantiated decoder; that the 16-byte overlap between chunks is laid out correctly (basic_in's constructor, set_current_region) and that counting and decoding passes agree is assumed.")
LX = "src/protoc-plugin/cpp_lexical_emitter.cpp"
HG = "src/protoc-plugin/hpp_generator.cpp"
p("C11", "Schema text enters generated C++ only checked or escaped",
  "Whatever names, paths, comments and default values a schema contains, they reach generated C++ only as what they are: an identifier consists of identifier characters, is not a C++ keyword (a keyword gets an underscore) and, for declared names, not one C++ reserves; an include path holds no quote, backslash or control character; a numeric default was parsed as a number to its end, within the range of its type, and is finite; each byte of a string or bytes default is spelled by an escape that denotes exactly that byte whatever follows it; text in a comment cannot end the comment line or splice the next; and nothing else of the schema or of the plugin's parameters is written to an output file.",
  ["inputs"], "every schema and parameter text", "The tests that exercise the generator are not part of the build here, and an injection needs a particular byte at a particular place.",
  [LX, "src/protoc-plugin/cpp_lexical_emitter.hpp", HG],
  [("identifier, qualified_name, include_path, numeric_literal, comment_text, string_literal_bytes", LX), ("source_argument, emit_to, source_fragment", "src/protoc-plugin/cpp_lexical_emitter.hpp"), ("code_generator and its derived generators: writes to target, file.content", HG)],
  "abstract interpretation of every lexical factory over byte classes, interprocedural tracing of every output write, compile-time type witness",
  "All factories and all output writes of the plugin. That the tokens are put together to a well-formed program, and that names do not collide, is not judged; how long unbroken raw text passed as literal constants is spelled is the compiler's.")
p("C26", "A failing generation reports an error and hands out no files",
  "When a step of code generation fails (a name, path or default value that cannot be expressed, a file or message the request names but does not contain, descriptors that are inconsistent, invalid options), the failure is recorded or returned on every path; the response to a request in which anything was recorded carries an error and no file; invalid options give a response with an error and no generation; and the plugin exits with a failure when it cannot decode its request or encode its response, without having written one.",
  ["inputs", "faults"], "every request, every failing step", "The plugin is not run by the tests of this build, and each failing step needs its own malformed request.",
  [HG, "src/protoc-plugin/protoc-gen-hpp.cpp", "include/hpp_proto/descriptor_pool.hpp"],
  [("hpp_generator::generate, generate_requested_files, cpp_identifier, generated_include, parse_plugin_options", HG), ("main, write_response", "src/protoc-plugin/protoc-gen-hpp.cpp"), ("init and the build steps", "include/hpp_proto/descriptor_pool.hpp")],
  "failure-path exploration of every fallible call, typestate of the response",
  "Calls returning expected values and the lookups of requested names; which schemas are to be refused (collisions) is not judged. Failures to write the output stream are not detected by the program and are not covered.")
p("C06", "Owned sub-messages have exactly one owner, whatever throws",
  "An indirect or optional_indirect owns its element alone: after every operation (construction with or without an allocator, copy, move, assignment from another holder, itself or a value, emplace, reset, swap, destruction), ended normally or by an exception from the allocator or from the element, every element is alive and owned by exactly one holder whose allocator it came from, nothing leaks, and nothing is used dead, destroyed twice or given back twice or to another allocator. A copy is deep and leaves its source alone, a move hands the value over, swap exchanges the values, self-assignment changes nothing, and the allocator given to a constructor is the one kept.",
  ["inputs", "faults", "histories"], "every element type, every allocator and propagation policy, every operation that may throw, throwing or not", "Tests use the default allocator and elements that do not throw.",
  ["include/hpp_proto/indirect.hpp", "include/hpp_proto/optional_indirect.hpp"],
  [("indirect", "include/hpp_proto/indirect.hpp"), ("optional_indirect", "include/hpp_proto/optional_indirect.hpp")],
  "ownership typestate over an abstract heap",
  "Using the value of an indirect that was moved from is the caller's mistake. optional_indirect_view owns nothing.")
p("C07", "flat_map keeps keys and values in step and keys in order, whatever throws",
  "After every operation on a flat_map that exists (insertion and emplacement of every kind with and without hint, operator[], assignment through insert_or_assign, erasure of every kind, clear, copy, move, swap, replace, extract), ended normally or by an exception from a key, a value, the comparison or a container, the map has as many values as keys and every key has its own value; a key is only inserted between its neighbours in the order, so keys stay sorted and unique whatever hint is given; what is inserted is what was given, an equivalent element is found rather than inserted again (and only insert_or_assign replaces its value), a given key is not moved from when nothing is inserted, erasing removes the elements asked for, looking up gives the equivalent element or the end, bounds are the bounds, and every iterator handed out pairs a key with its own value and is valid in the map as it is then.",
  ["inputs", "faults", "histories"], "every key, value, comparison and container type, every content, hint and position, every step that may throw, throwing or not", "Tests use standard vectors of types that do not throw, and few hints.",
  ["include/hpp_proto/flat_map.hpp"],
  [("emplace, try_emplace, insert_or_assign, guarded_emplace", "include/hpp_proto/flat_map.hpp"), ("erase, clear, swap, replace, extract, operator=", "include/hpp_proto/flat_map.hpp"), ("find, at, lower_bound, upper_bound, equal_range, iter", "include/hpp_proto/flat_map.hpp")],
  "abstract interpretation: edit logs of both containers, comparison facts and positions over opaque types",
  "Constructors from unsorted data (sort_and_unique_impl) and insertion of ranges are not followed; replace and the sorted_unique constructors trust their arguments as documented.")
p("C24", "What is generated depends on the request and nothing else",
  "The response of the code generator is a function of the request: generation does not read the clock, a source of randomness, the environment or the locale, opens no file, does not order, number or name anything by the addresses of objects, does not walk a hash table whose keys are addresses, and keeps no state in static storage from one generation to the next; the plugin program reads nothing but its input (and, when asked to, a file given in its arguments or options).",
  ["inputs", "histories", "configurations"], "every request, every run and environment", "A test sees one run in one environment with one heap layout; an order by address differs only under another layout.",
  [HG, "src/protoc-plugin/cpp_lexical_emitter.cpp", "src/protoc-plugin/protoc-gen-hpp.cpp", "include/hpp_proto/descriptor_pool.hpp"],
  [("hpp_generator::generate, order_messages, resolve_repeated_dependency_cycle, resolve_map_dependency_cycle", HG), ("main", "src/protoc-plugin/protoc-gen-hpp.cpp")],
  "effect analysis: call-graph reachability of nondeterministic sources, address-order lint on typed IR",
  "State kept in members from one file of a request to the next is part of generating the request and not judged; memory read before it is written is not detected.")
p("C20", "Misuse that would break a guarantee does not compile",
  "The compiler refuses: decoding a view message that needs memory, setting or reading such an extension of it, or encoding into a view, without a memory resource; allocation options made from temporaries, from const resources or from things that are not memory resources, and options that are no options; encoding into a const, non-byte or non-contiguous buffer or an incomplete sink, and appending to a buffer that cannot grow; input that is not bytes or chunks of bytes; encoding, decoding or merging what is not a message, into a const message, or between different messages; an extension on a message it does not extend; writing through a const message, a const owner, a view or its elements, or to a key of a map; changing a dynamic message through any read-only reference, or turning one into a mutable reference; dropping the outcome of reading, writing or appending unseen; a recursion limit of UINT32_MAX; copying depth scopes, arena adapters, stubs, factories; and gRPC operations that do not fit the method's kind or messages (unary call of a streaming method, writing or reading a stream that is none, messages of another method).",
  ["configurations"], "every program that uses the public API in one of these ways", "A test that compiles says nothing about programs that should not; the test suite has no compile-fail tests.",
  ["include/hpp_proto/binpb/concepts.hpp", "include/hpp_proto/memory_resource_utils.hpp", "include/hpp_proto/binpb.hpp", "include/hpp_proto/dynamic_message/", "include/hpp_proto/grpc/client.hpp", "include/hpp_proto/grpc/server.hpp"],
  [("concepts::input_byte_range, out_sink, isomorphic_message, contiguous_byte_range, memory_resource", "include/hpp_proto/binpb/concepts.hpp"), ("as_modifiable, alloc_from, cache_alloc_from", "include/hpp_proto/memory_resource_utils.hpp"), ("the cref and mref classes", "include/hpp_proto/dynamic_message/"), ("unary_method_check and the requires clauses of the reactors", "include/hpp_proto/grpc/client.hpp"), ("status [[nodiscard]]", "include/hpp_proto/field_types.hpp")],
  "compile-fail witnesses: requires-expressions and refused programs type-checked against the current headers",
  "The listed misuses, over the driver schema's message types; other misuses are not judged.")
p("C28", "No operation accesses what is absent or throws because of its data",
  "Decoding, encoding and merging generated messages, their extensions and Any never access an absent optional, an absent sub-message or a oneof alternative that is not the selected one, whatever the message held before and whatever the input or the other message holds; and no exception other than for exhausted memory leaves them because of the data.",
  ["inputs", "histories"], "every input, every previous state of the message that is decoded or merged into", "An access that is only wrong for one combination of previous state and input (a later alternative is selected, a sub-message is absent) needs that combination.",
  ["include/hpp_proto/binpb/deserialize.hpp", "include/hpp_proto/binpb/serialize.hpp", "include/hpp_proto/merge.hpp", "include/hpp_proto/optional_indirect.hpp", "include/hpp_proto/binpb/extension.hpp", "include/hpp_proto/binpb.hpp"],
  [("deserialize_oneof, deserialize_field of optionals", D), ("count_oneof, serialize_oneof, omit_value", S), ("message_merger::perform", "include/hpp_proto/merge.hpp"), ("optional_indirect::operator*, ->", "include/hpp_proto/optional_indirect.hpp")],
  "backward path-sensitive dataflow from every access and every throw over branches, stores and callers",
  "Sites: operator* and -> of std::optional and of owned or viewed sub-messages, and every reachable throw (std::get of a variant, substr, at, ...) of the instantiated codec. What was looked at is assumed unchanged until it is accessed; shapes the trace cannot follow are counted as undecided (8 on the current tree) and not reported. Accesses of dynamic message fields are traced too but less precisely.")
p("C15", "A closed enum accepts only values it has, and loses none",
  "When binary decoding meets a value that a closed enum does not have, in a field generated as closed (optional, oneof alternative, packed and unpacked repeated, extension message fields; owning and view messages; contiguous, padded and chunked input), the message is still accepted, the value does not become part of the field, other values of the field are unaffected, and the value is kept as an unknown field under the field's own number and with the value that was read, wherever unknown fields are kept. Dynamic messages likewise never hold such a value and are still accepted.",
  ["inputs"], "every enum value in every field kind and mode", "A forgotten test, a test of part of a range, or a lost value shows only for undeclared numbers in one kind of field.",
  [D, X, "include/hpp_proto/binpb/meta.hpp", "include/hpp_proto/descriptor_pool.hpp"],
  [("valid_enum_value and deserialize_unknown_enum in deserialize_field, deserialize_packed_repeated_unpadded, deserialize_unpacked_sequence_element, deserialize_oneof", D), ("deserialize(enum_value_mref), operator()(repeated_enum_field_mref)", X), ("valid_enum_value", "include/hpp_proto/descriptor_pool.hpp")],
  "must-pass dataflow with path-sensitive bottom-up summaries (values untested, refused, lost) over the decoder of every closed field",
  "All closed fields of the driver schema in every mode. Known finding: closed enum values of maps are stored untested. Required and unwrapped proto2 fields are generated as open on purpose. That the bytes of a set-aside value are re-encoded right, and the position of dynamic repeated values, are outside.")
