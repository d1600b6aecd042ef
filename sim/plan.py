"""What each property's campaign runs: (scenario, build, runs of the quick tier)."""
REAL = ["the whole metaresc library, compiled from /repo/src (all parsers, savers, collections, type tables)", "libxml2, libyaml, libtirpc XDR primitives (installed libraries)"]
STUB = ["memory allocator behind the library's configurable memory functions (simulated arena: address order, reuse, in-place or moving realloc, stale fill, failures)",
        "stdio streams and XDR streams where the scenario uses them (fopencookie / xdr_ops over a simulated disk file)",
        "process crash and restart between save and load (new heap layout, only the saved document survives)",
        "diagnostic message handler"]
COMMON_ASSUMPTIONS = ["The simulated application uses a fixed family of about 45 types covering every kind of field the library documents; other types are not generated.",
                      "Allocations that libxml2, libyaml, flex and bison make from the C library's heap behind the library's back do not fail; their leaks are watched.",
                      "A clean campaign is evidence from sampling, not a proof."]
GRAPH = "Random object graphs (shared, cyclic, interior and void pointers, unions of all discriminator kinds, resizable arrays, bit-fields, inline strings, special numbers) over thirteen root structures, and in one run of seven over a root that is an array of structures, strings or numbers, a union, an enumeration, a string, an inline string or a single number of any type; "
PLAN = {
 "P01": dict(scenarios=[("save_faults", "asan", 24000)],
   rule=GRAPH + "each run saves one object fault-free, then several times with allocation requests failing (single, periodic, burst, persistent; anywhere among the requests of the fault-free save), then fault-free again. Non-trivial: at least one injected failure fired."),
 "P02": dict(scenarios=[("load_faults", "asan", 20000)],
   rule=GRAPH + "each run saves an object, restarts, and loads the document repeatedly with allocation requests failing, releasing the destination after each attempt. Non-trivial: at least one injected failure fired."),
 "P03": dict(scenarios=[("roundtrip", "asan", 30000), ("large", "asan", 5000)],
   rule=GRAPH + "each run saves in one of seven formats, restarts with another heap layout and loads; further runs do the same with objects of regular shapes and up to 700 parts (lists that deep, wide arrays, long strings, many overlapping arrays). Non-trivial: the object has more than one region or a string."),
 "P04": dict(scenarios=[("deterministic", "asan", 20000)],
   rule=GRAPH + "each run builds the same object two to four times at different addresses, with different dirt in unspecified bytes and different earlier activity (including failed operations), and saves each. Non-trivial: the document has more than 40 bytes."),
 "P08": dict(scenarios=[("copy", "asan", 24000), ("large_copy", "asan", 5000)],
   rule=GRAPH + "each run copies one object repeatedly, fault-free and with allocation requests failing, then overwrites the source; further runs copy objects of regular shapes and up to 700 parts. Non-trivial: a failure fired or the object has more than one region."),
 "P09": dict(scenarios=[("free", "asan", 30000)],
   rule=GRAPH + "each run allocates an object and bystander blocks through the library's memory functions and releases it recursively under allocation failures until it succeeds. Non-trivial: a failure fired or more than one block is owned."),
 "P10": dict(scenarios=[("hash_cmp", "asan", 14000)],
   rule=GRAPH + "each run builds five objects (two equal ones, two one-value mutants, one other) at different addresses after different histories and compares all pairs. Non-trivial: more than one region or a string."),
 "P11": dict(scenarios=[("ic", "asan", 60000), ("ic_typed", "asan", 3200)],
   rule="Each run creates one collection of a random kind over keys of the application (integers, pointers to records, congruence classes; five hash functions of different quality) or over generated objects of six library-described types, and applies up to 120 random operations, comparing every result and the whole content with a reference set. Non-trivial: the reference set held more than two keys (one object for typed keys)."),
 "P12": dict(scenarios=[("ic_faults", "asan", 60000)],
   rule="As P11, with about half of the operations under failing memory requests (single, periodic, burst, persistent). Non-trivial: at least one injected failure fired."),
 "P13": dict(scenarios=[("tree", "asan", 40000)],
   rule="Each run applies up to 300 insertions, deletions and reservations (random, ascending or descending key order; some with failing memory requests) to a red-black or AVL tree and compares order, structure, lookup cost and stepping with a sorted reference after every operation. Non-trivial: more than three keys were stored."),
 "P05": dict(scenarios=[("damage_text", "asan", 36000)],
   rule="Each run saves two random objects in one of the six text formats, damages the stored document in two to nine different ways (bit flips, lost, inserted, duplicated, moved and swapped bytes, lines, tokens, numbers and names, torn tails, splices with another document, deep nesting), loads each result, often twice under different memory layouts, and finally loads the intact document. Non-trivial: at least one damaged document differed from the saved one."),
 "P06": dict(scenarios=[("damage_xdr", "asan", 36000)],
   rule="Each run saves two random objects as XDR, damages the stored stream (words changed, shifted, lost, inserted, duplicated, torn tails, splices) or makes reads of it fail or end early at any point, and loads each result from memory or from a simulated disk file, often twice under different memory layouts. Non-trivial: at least one damaged stream differed from the saved one."),
 "P14": dict(scenarios=[("threads_first", "sched", 6000)],
   rule="Each run starts a process in which the library has not been used yet and lets two to five threads make its first use at once (each one to three operations out of save, load, copy, hash, compare, print, type, enum and field lookup, name of function, diagnostic message), preempted at memory accesses and calls of the library as the seed decides; results are compared with those of the same operations one after another in another process of the same memory. Non-trivial: at least one preemption happened."),
 "P15": dict(scenarios=[("threads", "sched", 8000)],
   rule="As P14 with the library already in use, two to four threads of one to six operations each, shared read-only objects, sometimes with failing memory requests; afterwards all operations are repeated one after another. Non-trivial: at least one preemption happened."),
 "P07": dict(scenarios=[("stream", "asan", 9000), ("torn", "asan", 9000)],
   rule="Each run writes and reads random objects through stdio streams over a simulated disk file (XDR: library streams; text: documents read back from a file), with writes and reads failing, the disk filling up and files ending early at any byte, at any buffer size; torn: every kind of document cut at random lengths, including every length of its tail, is loaded. Non-trivial: an injected stream fault fired, or a cut document was loaded."),
 "P16": dict(scenarios=[("xml_stream", "asan", 9000)],
   rule="Each run writes one to five XML documents (saved by the library in either XML format, with different white space between them) to one simulated disk file and takes them out one at a time with mr_read_xml_doc under failing memory requests, reads that fail, short reads and early end, checking each against what was written and the position of the stream. Non-trivial: more than one document or an injected fault."),
 "P17": dict(scenarios=[("print", "asan", 22000), ("print_auto", "asan", 16000)],
   rule=GRAPH + "each run prints one line (a typed object in one of six formats, basic values of every width, pointers with what they point at, arrays, or structures among values) to a simulated disk stream three times, fault-free and with failing memory requests or a failing disk, at any buffer size, and compares the text and the returned count with a reference made of the C library's printf and of the saved documents; print_auto: the type of every argument is found by the library (through the hook of the header) and everything is printed with one of the seven default methods: pointers to structures, unions and values, arrays of structures, strings and numbers, enumerations of every width, untyped pointers. Non-trivial: an injected fault fired."),
 "P18": dict(scenarios=[("buffers", "asan", 40000)],
   rule="Each run applies up to 64 appends, formatted prints, or stream writes followed by reads and positionings to a resizable array, some of them with failing memory requests, and compares with a reference byte array. Non-trivial: an injected failure fired."),
 "P19": dict(scenarios=[("sort", "asan", 36000)],
   rule="Each run sorts one array of up to 200 values of a basic type, strings, or library-described objects (many equal elements; comparing objects needs memory, and its requests fail), and checks order and that the result is a rearrangement of the same elements. Non-trivial: more than two elements."),
 "P20": dict(scenarios=[("diagnostics", "asan", 14000)],
   rule=GRAPH + "each run performs one operation that produces diagnostics (load of a damaged document, or a save, load or copy with failing memory requests) three times with the same faults: with a handler that only counts, with a handler that formats the message and itself saves and loads other objects, and with no handler and the standard error stream on a simulated disk that may be full. Non-trivial: at least one message was produced."),
 "P21": dict(scenarios=[("growth", "asan", 5000), ("growth_ic", "asan", 4000)],
   rule="Each run builds an object of one of sixteen regular shapes at a size and at one eighth of it, its parts at a random distance from each other and in a random order in memory, and performs one operation (save or load in one of seven formats, copy, hash, compare, free) on both and again on the small one; or adds, finds and deletes keys of a hash, tree or sorted collection, or sorts, at both sizes. Work is simulated time: basic blocks executed by the library plus bytes moved or scanned for it. Non-trivial: all."),
 "P22": dict(scenarios=[("first_faults", "asan", 4000), ("threads_first_faults", "sched", 2000)],
   rule="Each run starts from a process that has not used the library yet. A forked reference process without faults gives the documents, the hash and the number of memory requests; then one to four operations (save, load, copy, hash, compare, type lookup, sort) run while a drawn set of memory requests is refused (one of them, each one from some point on, a fraction, all over a size), and afterwards the same operations run without faults and must give what the reference process gives, with as many blocks held. In threads_first_faults one to five threads do so at the same time under the seeded scheduler. Non-trivial: a request was refused before the type tables were complete."),
 "P23": dict(scenarios=[("upgrade", "up", 16000)],
   rule=GRAPH + "each run saves an object of one version of the application in one of the six text formats, in half of the runs edits the document by hand (white space, remarks, numbers in another base or as sums, characters as escapes, trailing commas), restarts as the same or another version (structures with their fields in another order, or with further fields in between), in some runs fails to load for want of memory first, and loads. Non-trivial: edited or loaded by another version."),
}
