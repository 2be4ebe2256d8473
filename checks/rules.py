from core import *

READ = ["d_read", "d_read_chunked", "d_read_view", "d_read_view_chunked"]
WRITE = ["d_write", "d_write_sink", "d_write_arena"]
DYN = ["d_dyn", "factory"]
EXT = ["d_ext", "d_ext_view"]
RULES = {}


def rule(pid, **kw):
    def deco(f):
        RULES[pid] = dict(run=f, level=kw.pop("level", "other"), **kw)
        return f
    return deco


COMMON = ["clang 20's lowering of the driver instantiations is faithful to the source",
          "the driver units instantiate every code path of interest (all field kinds, both trait families, contiguous and chunked input, span/vector/sink output)"]

HEAP = [r"^operator new(\[\])?\(unsigned long(, std::align_val_t)?(, std::nothrow_t const&)?\)$",
        r"^(malloc|calloc|realloc|posix_memalign|aligned_alloc|strdup)$", r"(get_default_resource|new_delete_resource)"]


@rule("C18", nonzero=["roots", "repo_functions"],
      rule="no object of static or thread storage duration reachable from an API root is writable after its guarded initialiser",
      explain="Call-graph reachability from every driver root over the instantiated IR; every global variable referenced by a reachable function is classified constant / const after initialisation / written only inside its own guarded initialiser / violation.",
      assume=COMMON)
def c18(tier):
    b = bitcode(READ + WRITE + DYN + EXT + ["d_merge"])
    return analyse("globals", list(b.values()), root="vproot_")


@rule("C17", nonzero=["roots", "repo_functions"],
      rule="no global-heap allocation function and no default memory resource is reachable from decoding a view message with explicit resources",
      explain="Call-graph reachability from the decode and encode entry points instantiated with caller supplied memory resources; any path to operator new, malloc or the default pmr resource is a violation, reported with its call chain.",
      assume=COMMON + ["virtual calls made on the caller's own std::pmr::memory_resource are the caller's allocation, not a heap fallback"])
def c17(tier):
    b = bitcode(["d_read_view", "d_read_view_chunked", "d_write_arena", "d_ext_view"])
    return analyse("reach", list(b.values()), root="vproot_arena", forbid=HEAP)


CODEC_ROOTS = ["vproot_read", "vproot_write", "vproot_append", "vproot_sink", "vproot_arena", "vproot_dyn_read", "vproot_dyn_write", "vproot_dyn_sink"]


@rule("C01", nonzero=["roots", "codec_cycles", "guards", "guarded_call_sites", "prechecked_entries"],
      rule="every call cycle of the codec contains a call site reached only with an admitted scope of a shared depth counter (admitted iff depth <= limit, decremented on every exit including unwinding, exhaustion reported), or is entered only behind the verdict of such a cycle",
      explain="Call graph of every decode/encode instantiation; strongly connected components; per function path-sensitive typestate of the depth counter (increment, decrement, admission test); cycles remaining after removing guarded call sites are violations.",
      assume=COMMON + ["destruction and copying of in-memory message trees is not codec recursion", "JSON is outside the compiled closure (its third-party dependency is absent here)"])
def c01(tier):
    b = bitcode(READ + WRITE + EXT + ["d_dyn"])
    return analyse("recursion", list(b.values()), root=CODEC_ROOTS, limit="100")


@rule("C02", nonzero=["functions", "call_sites", "paths", "absorbed_sentinels"],
      rule="on every path on which a fallible call fails, the enclosing function returns a failure; only the unknown-closed-enum signal of a callee that cannot exhaust the nesting limit may be absorbed",
      explain="Fallible functions are found by type (status, error code, optional count, expected, archive writes, and library algorithms handing one of these through). For every call site the failing outcome is assumed and followed path-sensitively to every return of the enclosing function.",
      assume=COMMON + ["exceptions are propagated by the language", "a zero-length count or an empty field is not a failure"])
def c02(tier):
    b = bitcode(READ + WRITE + EXT + ["d_dyn"])
    return analyse("errors", list(b.values()), sentinel=["75", "34"])


@rule("C13", nonzero=["roots", "archive_string_primitives", "validations", "paths"],
      rule="every path that stores decoded bytes in a string field, or writes a string field out, and succeeds, has had a true result of the UTF-8 validation of that whole string (or the field does not ask for it, or the string is empty)",
      explain="Units compiled with validation on. Bottom-up summaries say which functions can succeed with a string just read unvalidated, or write one unvalidated; the archive primitives are the leaves; a validation counts on the path where it came out true; a root that is so reached is a violation, as is a validation whose length is not the string's.",
      assume=COMMON + ["is_utf8 (third-party, absent here) decides UTF-8 correctly", "every string field of the driver schema asks for validation"])
def c13(tier):
    b = bitcode(["u_read", "u_read_chunked", "u_read_view", "u_read_view_chunked", "u_write", "u_write_sink", "u_dyn"])
    return analyse("utf8", list(b.values()))


@rule("C15", nonzero=["roots", "decoders", "reads", "tests", "filters", "paths"],
      rule="every path on which a closed enum value is decoded and accepted has had a true answer from the enum's test of that value; where the answer was false the value goes nowhere but into the unknown fields, and decoding goes on",
      explain="Bottom-up path-sensitive summaries over the decoder instantiations of fields whose metadata (or descriptor) says closed enum: values just read and not tested, values tested false and not set aside, failures that stand for such a value. A value untested, a failure, or a lost value at a root is a violation, as is any use of a value (or of the object it was to be decoded into) after the test came out false. Range filters are checked for the range they begin at, their predicate's answer and what is done with their result.",
      assume=COMMON + ["the generated is_valid lists what the schema enumerates", "which fields are marked as closed is the generator's decision (required and unwrapped singular fields deliberately are not)", "dynamic messages have nowhere to keep unknown values and drop them"])
def c15(tier):
    b = bitcode(["d_read", "d_read_chunked", "d_read_view", "d_read_view_chunked", "d_ext", "d_ext_view", "d_dyn"])
    return merge(analyse("enums", [b[n] for n in b if n != "d_dyn"]), analyse("enums", [b["d_dyn"]], dynamic="1"))


@rule("C10", nonzero=["subjects", "paths_checked", "agreements"],
      rule="on every path through an adapter operation the call is started, answered, reported and deleted exactly once, with the status that belongs to it, from buffers that outlive it, and nothing touches the reactor after a call that may delete it",
      explain="Each client operation, server operation and reactor callback is instantiated for all four kinds of call against handlers about which nothing is known, with the adapter inlined down to the gRPC API. A typestate over the API calls, the codec outcome, the finish claim and the ownership of the reactor is followed along every path; offsets within the reactor and stub are compared between operations.",
      assume=COMMON + ["gRPC's own API behaves as documented for gRPC 1.51", "exceptions thrown by handlers are outside the contract"])
def c10(tier):
    b = bitcode(["d_grpc"])
    return analyse("grpc", list(b.values()))


@rule("C03", nonzero=["roots", "uses", "comparisons", "decode_loops", "parsers"],
      rule="a number read from the input becomes an extent (bytes skipped, copied, allocated, a sub-message's end) only where a comparison with what is left of the input has bounded it; a parsed position is taken over only where it was found not to lie behind the end; a decoding loop ends in success only when the input is used up exactly or the end marker looked for was met",
      explain="Units compiled as in a release build (asserts off). Values returned by the varint parsers are followed through arithmetic, stores, parameters and results; every pointer offset, copy size and allocation size computed from them is an obligation, discharged on every path by a dominating comparison with a difference of input positions (lossy arithmetic and off-by-one constants do not count). Bottom-up summaries carry obligations and comparisons through helper functions.",
      assume=COMMON + ["the overlap of input regions makes one tag and one scalar readable without a comparison; its size is checked, that it is laid out as documented is not", "counting passes (count_unpacked_elements, count_groups) agree with the decoding passes over the same bytes"])
def c03(tier):
    b = bitcode(["n_read", "n_read_chunked", "n_read_view", "n_read_view_chunked", "n_ext", "n_ext_view", "n_dyn"])
    return merge(analyse("lengths", list(b.values())), witness("slope"))


GEN = COMMON[:1] + ["the lexical rules of C++ are as tabulated (keywords, escapes, identifier characters)"]


@rule("C11", nonzero=["factories", "byte_tests", "constructions", "spellings", "sink_calls"],
      rule="text of a schema enters generated source only as a checked identifier, a range-checked number or an escaped spelling of each byte, and every write to an output file takes a value of a type that guarantees this",
      explain="Every factory of a lexical type is executed abstractly over all paths; each loop over the bytes of the text is evaluated for all 256 byte values, giving what it lets through and how it spells it, which is compared with what C++ reads; text that reaches a private constructor must have passed such a loop, a keyword lookup, or a number parser whose end, error and range were tested. Every write to an output string in the generator is traced to its source; which types may be emitted is type-checked.",
      assume=GEN)
def c11(tier):
    b = bitcode(["cpp_lexical_emitter", "hpp_generator"])
    return merge(analyse("lexical", [b["cpp_lexical_emitter"], b["hpp_generator"]]), analyse("sinks", [b["hpp_generator"]]), witness("lexical"))


@rule("C26", nonzero=["fallible_results", "responses", "outcomes", "main_steps"],
      rule="when a fallible step of the generator fails, the failure is recorded or returned on every path; a response that may hold a recorded failure is returned only with its error set and its files removed; the program exits non-zero when it cannot decode the request or encode the response",
      explain="Each call of a function returning an expected value is assumed to have failed and followed on every path to the end of the function; the typestate (failure possible, failure known, error set, files removed) of the response is followed along every path of the function that makes it; the steps of main are assumed to fail one at a time.",
      assume=GEN[:1] + ["exceptions end the program, which protoc reports"])
def c26(tier):
    b = bitcode(["hpp_generator", "protoc-gen-hpp"])
    return merge(analyse("genfail", [b["hpp_generator"]]), analyse("genfail", [b["protoc-gen-hpp"]]))


@rule("C06", nonzero=["operations", "exits", "results", "allocations", "releases", "element_uses"],
      rule="at every normal and exceptional end of every operation each element is owned by exactly one holder, is alive and came from that holder's allocator; nothing is used, destroyed or given back twice, dead or by the wrong allocator; and the holders hold what the operation says",
      explain="Typestate analysis over an abstract heap: indirect and optional_indirect are instantiated over an element type and allocators (six propagation policies) whose operations are declared only; every operation is followed through every branch and every outcome (including an exception) of each opaque step, tracking which holder points to which element, whether memory is allocated and the element alive, and what it was made from.",
      assume=["clang 20's lowering of the driver instantiations is faithful to the source", "an indirect that was moved from is only assigned to or destroyed", "swap and destruction of elements follow the language's rules"])
def c06(tier):
    b = bitcode(["d_own"])
    return analyse("own", list(b.values()))


@rule("C07", nonzero=["operations", "exits", "results", "container_operations", "insertions", "comparisons", "positions"],
      rule="at every normal and exceptional end of every operation the same was done to the keys as to the values; a key is inserted only between elements the comparisons made on the path order it between; every iterator and reference used or given back is into the map as it is then, with its key and value at one position; and the result is that of the element it says",
      explain="Abstract interpretation of every operation of flat_map over containers, elements and a comparison that are declared only: an edit log per container, positions as linear forms, what every comparison said as path facts, the searching algorithms of the standard library replaced by their specification. Every branch and every outcome (including an exception) of each opaque step is followed.",
      assume=["clang 20's lowering of the driver instantiations is faithful to the source", "the comparison is a strict weak order", "inserting one element has no effect when it throws, and taking back an insertion does not throw", "swapping and clearing containers does not throw"])
def c07(tier):
    b = bitcode(["d_fmap"])
    return analyse("fmap", list(b.values()))


@rule("C24", nonzero=["roots", "repo_functions", "address_comparisons", "static_objects"],
      rule="nothing reachable from the generation entry points and from the plugin's main reads the clock, a random source, the environment, the locale or (generation) files, orders by or prints the addresses of objects, walks a hash table of addresses, or keeps state in static storage",
      explain="Call-graph reachability from hpp_generator::generate, parse_plugin_options and main over the compiled generator; every reachable external function is classified, every pointer comparison and pointer-to-number conversion examined by the pointee's type, every step of a hash-table iterator by the key's type, every static object by who writes it.",
      assume=GEN[:1] + ["message descriptors live in one array, so their addresses are in the order of declaration", "the standard library's hash of strings and numbers is the same in every run", "no memory is read before it is written"])
def c24(tier):
    b = bitcode(["hpp_generator", "cpp_lexical_emitter", "protoc-gen-hpp"])
    roots = ["_ZNK9hpp_proto6protoc13hpp_generator8generate", "_ZN9hpp_proto6protoc20parse_plugin_options"]
    return merge(analyse("determinism", [b["hpp_generator"]], roots=roots, same_array="^message_descriptor_t$"),
                 analyse("determinism", [b["cpp_lexical_emitter"]], roots="_ZN"),
                 analyse("determinism", [b["protoc-gen-hpp"]], roots="main", files_allowed="1"),
                 analyse("globals", [b["hpp_generator"]], root=roots[0]),
                 analyse("globals", [b["cpp_lexical_emitter"]], root="_ZN"))


@rule("C20", nonzero=["witness_assertions", "refused_programs"],
      rule="each program of the list of misuses is refused by the compiler: by a constraint, a signature, an assertion or the obligation to look at a result",
      explain="The misuses are requires-expressions over the public API (and, where the refusal is an assertion inside a function, programs of their own), type-checked against the current headers; positive probes beside them keep them from being refused for the wrong reason.",
      assume=["clang 20 implements overload resolution and constraints as the standard says", "the driver schema's messages stand for every message"])
def c20(tier):
    return merge(witness("misuse", keep=True), witness("misuse_grpc", keep=True), must_not_compile("misuse_body"))


@rule("C28", nonzero=["functions", "accesses", "guarded_throws", "memory_exhaustion_sites"],
      rule="on every way from the API to an access to an optional, an owned or viewed sub-message, a oneof alternative, or anything else that throws when it may not be used, the object has been looked at (or set) so that the access is allowed",
      explain="Sites: operator* and -> of optionals, optional sub-messages and dynamic message fields, and every throw of the library or the C++ library other than for exhausted memory that is reachable from the driver. From each, backwards through branches, stores and all callers, with the set of values (alternative index, presence, null) for which the access is not allowed: a branch that the value cannot pass, or a store, ends the way; reaching the API with a value left is a violation.",
      assume=COMMON + ["an object that was looked at is not changed between that and the access through another name", "a variant is never valueless (only exhausted memory makes one so)", "the default values a dynamic field descriptor was built with have the field's type"])
def c28(tier):
    b = bitcode(READ + WRITE + EXT + ["d_merge", "d_dyn", "d_write_arena"])
    return analyse("throws", list(b.values()), roots=["vproot"])
