prop("P05", "A damaged text document never harms the process that loads it",
 "Whatever happened to a text document (XML1, XML2, CINIT, JSON, YAML, SCM) between save and load, loading it into any type comes to an end in time proportional to its length, touches no memory outside its own, never releases foreign or already released memory, and either reports failure with nothing allocated left behind and every pointer of the destination dropped, or reports success with every allocated block reachable from the destination. The verdict and the loaded contents depend on the bytes alone, not on the state of the heap or earlier loads, and a later load of the intact document succeeds.",
 ["inputs", "histories", "fault_sequences"], "every damaged form of every document of every type, every heap layout, every sequence of loads",
 "The tests load a few hand-written wrong documents per format and look only at the returned status, without any check of memory safety, leaks or dependence on uninitialised memory.",
 F("mr_load.c", "xml1_load.y", "xml2_load.c", "xml_save.c", "cinit_load.y", "json_load.y", "scm_load.y", "yaml_load.c", "lexer.h", "mr_value.c"),
 M(("tree of parsed nodes checked against the type while loading", "mr_load.c:mr_load, mr_load_struct, mr_load_array"), ("memory of a load tracked until its end", "mr_load.c:mr_load_check_allocated, mr_load_cleanup"), ("references resolved through a bounded table", "mr_load.c:mr_set_crossrefs"), ("unescaping within the token", "xml_save.c:xml_unquote_string, mr_get_char_array")),
 ["MR_LOAD_XML, MR_LOAD_XML2, MR_LOAD_CINIT, MR_LOAD_JSON, MR_LOAD_YAML, MR_LOAD_SCM status, destination and memory"])
prop("P06", "A damaged or failing binary stream never harms the process that loads it",
 "Whatever bytes an XDR stream holds, and wherever reading it fails or ends early, MR_LOAD_XDR comes to an end, touches no memory outside its own, requests no memory it can not release, and either reports failure with nothing allocated left behind, or reports success with every allocated block reachable from the destination; success is never reported after a failed read. The verdict and contents depend on the bytes alone, and a later load of the intact stream succeeds.",
 ["inputs", "histories", "fault_sequences"], "every damaged form of every stream of every type, every point at which reading fails, every heap layout",
 "The XDR tests read back what was just written; lengths, counts, flags, discriminators and references in the stream are never wrong and reads never fail.",
 F("xdr.c", "mr_load.c"),
 M(("lengths from the stream checked against destination and allocation", "xdr.c:xdr_load_inner, xdr_load_array, xdr_load_pointer, xdr_load_string"), ("cleanup of a partial load", "xdr.c:mr_xdr_load_cleanup"), ("references resolved through a bounded table", "mr_load.c:mr_set_crossrefs")),
 ["MR_LOAD_XDR, MR_LOAD_XDR_RA status, destination and memory"])
prop("P11", "A collection behaves as a set under any history, whatever its kind",
 "For every kind of indexed collection (unsorted array, sorted array, hash table, static array, red-black tree, AVL tree), every comparison and hash function of the application (colliding, constant, congruence classes, zero keys) and the library's own comparison of typed objects, any history of add, delete, find, traverse, index and release answers exactly as a reference set: add returns the one stored equal key, delete succeeds exactly for present keys, find finds exactly the stored ones, a traversal visits every stored key once and stops when its visitor refuses, the item count is right, and release gives back all memory. The caller's index array is never modified.",
 ["inputs", "histories", "configurations"], "every kind of collection, every key set and hash quality, every history of operations, every heap layout",
 "The ic tests insert small fixed arrays of integers with one hash function; deletion chains, zero and equal keys, poor hashes, conversion between kinds and re-indexing after deletions are not combined.",
 F("mr_ic.c", "mr_btree.c", "mr_hsort.c", "mr_extra.c"),
 M(("kind-specific add, del, find, foreach, index behind one interface", "mr_ic.c"), ("open addressing with re-insertion on delete", "mr_ic.c:mr_ic_hash_del"), ("conversion of array kinds on growth", "mr_ic.c:mr_ic_unsorted_array_add, mr_ic_static_array_add")),
 ["mr_ic_new, mr_ic_add, mr_ic_del, mr_ic_find, mr_ic_foreach, mr_ic_index, mr_ic_free, mr_ic_t.items_count"])
prop("P12", "A collection operation that runs out of memory loses nothing and stays usable",
 "When memory requests fail during any operation on a collection of any kind, the operation either succeeds or reports failure; a failed add or delete leaves exactly the stored keys that were there, a failed index leaves the old content or none; the item count, lookups and traversals stay exact, nothing leaks, and later operations succeed.",
 ["inputs", "histories", "fault_sequences"], "every kind of collection, every history, every pattern of failing memory requests anywhere in it",
 "No test fails a memory request inside a collection and then goes on using it.",
 F("mr_ic.c", "mr_btree.c", "metaresc.c"),
 M(("growth into a new table before the old one is dropped", "mr_ic.c:mr_ic_hash_add"), ("growable arrays that survive failed growth", "metaresc.c:mr_rarray_allocate_element"), ("tree node allocation before linking", "mr_btree.c:mr_tree_node_new")),
 ["mr_ic_add, mr_ic_del, mr_ic_index results and everything observable afterwards"])
prop("P13", "Search trees stay ordered, balanced and complete under any history",
 "After any history of insertions and deletions, including failed insertions, a red-black or AVL tree walks exactly the stored keys in ascending order, stepping to the successor and predecessor of any key, present or not, gives the next stored key and stops at the ends, lookups take a logarithmic number of comparisons (height at most twice the logarithm; AVL subtrees differ by at most one), and all memory is returned by release.",
 ["inputs", "histories", "fault_sequences"], "every history of insertions and deletions over every key order, every pattern of failing memory requests",
 "The btree tests insert and delete a few fixed permutations; rebalancing cases on deletion, stepping from absent keys and failed growth in the middle of a history are not sampled.",
 F("mr_btree.c"),
 M(("rotations after insertion and deletion", "mr_btree.c:mr_rbtree_add, mr_rbtree_del, mr_avltree_add, mr_avltree_del"), ("path-stack traversal", "mr_btree.c:mr_tree_next, mr_tree_walk")),
 ["mr_rbtree_add, mr_rbtree_del, mr_avltree_add, mr_avltree_del, mr_tree_find, mr_tree_next, mr_tree_walk, mr_rbtree_is_valid, mr_avltree_is_valid"])
prop("P14", "Concurrent first use initialises the library exactly once and completely",
 "When any number of threads make the first use of the library at the same time, in any interleaving, every operation returns what it returns in a process with one thread: no thread sees a partly built type table, enum table, field table or message table, none initialises a second time, and all of them come to an end.",
 ["inputs", "schedules"], "every interleaving of every set of first operations",
 "No test has a second thread; the order in which threads meet the lazy initialisation is up to the operating system.",
 F("metaresc.c", "mr_message.c", "mr_value.c", "mr_stringify.c", "mr_udo_init.c"),
 M(("one thread initialises, the others wait until the flag is set last", "metaresc.c:mr_conf_init"), ("tables computed on first use", "mr_message.c:mr_message_format, mr_value.c:mr_get_enum, metaresc.c:mr_detect_structured_type, mr_type_is_union_discriminator"), ("flag set after the table is complete", "cinit_load.y:cinit_unquote_str, json_load.y:json_unquote_str, scm_load.y:scm_unquote_str, xml_save.c:xml_unquote_string")),
 ["results of the first operations of every thread"])
prop("P15", "Operations of different threads do not influence each other",
 "Operations on objects of different threads, and operations that only read an object several threads share, return under any interleaving exactly what they return alone (documents byte for byte, loaded contents, copies, hashes, comparison results, printed output, looked up types and names), change no shared object, leak nothing, and leave nothing behind that changes later results; an operation whose own memory requests fail reports that without influencing the others.",
 ["inputs", "schedules", "fault_sequences"], "every interleaving of every set of operations, every pattern of failing memory requests among them",
 "No test has a second thread.",
 F("metaresc.c", "mr_save.c", "mr_load.c", "mr_stringify.c", "mr_value.c", "mr_message.c", "xml_save.c", "json_save.c", "cinit_save.c", "scm_save.c", "yaml_save.c", "xml1_load.y", "cinit_load.y", "json_load.y", "scm_load.y", "yaml_load.c", "xml2_load.c", "xdr.c", "mr_extra.c", "mr_ic.c"),
 M(("re-entrant parsers and scanners", "lexer.h, xml1_load.y, cinit_load.y, json_load.y, scm_load.y"), ("per-operation state passed by argument", "mr_save.c, mr_load.c"), ("shared cache of function names", "mr_stringify.c:mr_serialize_func")),
 ["results of concurrent operations"])
prop("P07", "Streams report every I/O failure; incomplete documents are never accepted",
 "Saving objects one after another to an application's XDR stream writes exactly the bytes a save to memory produces; when any write fails (full or broken medium, at any byte, once or for good) the save reports failure, the object is untouched and nothing leaks, and a retry on the recovered stream is complete. Reading consumes exactly the bytes written for one object, so objects can be read in order or by position; when any read fails or the stream ends early the load reports failure with a destination that can be released. A CINIT, JSON, SCM, XML1, XML2 or XDR document that lost any part of its tail is rejected, unless what remains still denotes the same object.",
 ["inputs", "fault_sequences", "crash_points"], "every object, every sequence of objects in a stream, every byte or call at which writing or reading fails, every length at which a document is cut",
 "The XDR tests write to memory buffers and pipes that never fail; no test cuts a document.",
 F("xdr.c", "mr_load.c", "xml1_load.y", "xml2_load.c", "cinit_load.y", "json_load.y", "scm_load.y", "lexer.h"),
 M(("status of every primitive checked", "xdr.c:mr_xdr_save, mr_xdr_load, xdr_save_*, xdr_load_*"), ("cleanup of a partial load", "xdr.c:mr_xdr_load_cleanup"), ("grammars that accept one complete value", "cinit_load.y, json_load.y, scm_load.y, xml1_load.y")),
 ["MR_SAVE_XDR, MR_LOAD_XDR over xdrstdio or application streams; MR_LOAD_* of shortened documents"])
prop("P16", "XML documents are taken from a stream one at a time, whole or not at all",
 "When several XML documents (XML1 or XML2, separated by any white space or none) follow each other in a stdio stream, mr_read_xml_doc returns them in order, each byte for byte as written and acceptable to the loader of its format, without consuming a byte of the next one; when memory, the stream's reads or the stream itself end inside of a document it returns NULL and releases everything; after the last document it returns NULL.",
 ["inputs", "histories", "fault_sequences"], "every sequence of documents, every buffering and chunking of the stream, every point at which reading fails or memory is refused",
 "The only test reads one document from one pipe.",
 F("metaresc.c"),
 M(("tag nesting followed character by character", "metaresc.c:mr_read_xml_doc"), ("buffer growth", "metaresc.c:mr_read_xml_doc")),
 ["mr_read_xml_doc result, position of the stream"])
prop("P17", "Printing shows exactly what saving would, and counts what it wrote",
 "MR_PRINT and MR_FPRINT write, for every argument in order, the value's text: a typed object exactly as its save in the requested format, integers of every width, floating point and complex values, booleans and strings as their values, pointers and arrays with their address, type and contents (whichever of the seven methods is the default; without the type for those other than C initializers), enumerations by name where the type is known; the returned count is the number of bytes written; the printed objects are not modified and nothing leaks. When memory runs out only the description of the element concerned is missing (or reduced to its address), the others come out in full and the count stays right; when the stream fails, it says so and what was written is a beginning of the expected text.",
 ["inputs", "fault_sequences"], "every object, format and kind of argument, every failing memory request, every point at which the stream fails",
 "The print tests print a few values to memory; none fails memory or the stream.",
 F("mr_print.c", "metaresc.h"),
 M(("one printer per kind of argument", "mr_print.c:mr_print_value, mr_print_pointer"), ("typed objects saved, printed and released", "metaresc.h:MR_PRINT_STRUCT")),
 ["MR_PRINT, MR_FPRINT output and result"])
prop("P18", "Growable buffers hold exactly what was put into them, even when memory runs out",
 "mr_rarray_append and mr_rarray_allocate_element hand out the bytes directly behind the old end of the array and grow it by exactly the requested amount; mr_ra_printf appends exactly what printf prints and returns its length; an XDR stream over a resizable array holds the encoded items in order, can be positioned anywhere inside and reads back what was written, and nothing behind its end. When memory is refused, an append leaves the array unchanged, a failed print leaves no incomplete text behind, and a failed write leaves the earlier bytes intact. Nothing leaks.",
 ["histories", "fault_sequences"], "every history of operations, every pattern of refused memory, every placement of grown blocks",
 "The tests append a few elements and never fail memory or position the stream.",
 F("metaresc.c", "mr_message.c", "xdr.c"),
 M(("growth by doubling with the size set after success", "metaresc.c:mr_rarray_allocate_element, mr_rarray_append"), ("measure, grow, print", "mr_message.c:mr_ra_printf"), ("stream operations over the array", "xdr.c:xdrra_putbytes, xdrra_getbytes, xdrra_setpostn")),
 ["mr_rarray_append, mr_rarray_allocate_element, mr_ra_printf, mr_xdrra_create and the XDR calls over it"])
prop("P19", "Sorting rearranges and orders, and never loses an element",
 "mr_generic_sort puts the elements of an array of any basic type, of strings or of library-described objects into ascending order of the library's comparison, for every length and every multiplicity of equal elements; the result is always a rearrangement of the elements it was given, even when comparing objects runs out of memory, and nothing leaks.",
 ["inputs", "fault_sequences"], "every array of every element type, every failing memory request during it",
 "The sort tests sort a few short arrays of small types without equal or failing comparisons.",
 F("mr_hsort.c", "mr_ic.c"),
 M(("heap sort with element moves", "mr_hsort.c:mr_hsort"), ("comparison by type", "mr_ic.c:mr_generic_cmp")),
 ["MR_GENERIC_SORT, mr_generic_sort"])
prop("P20", "Diagnostics report, they do not interfere",
 "Whatever is done with the library's diagnostics, the result of the operation they are about stays the same: with a message handler that only takes note, with one that formats the message and uses the library itself (saves, loads and failing loads of other objects), and with none, where messages of at least the configured level are printed to the standard error stream, which may be full. The same operation emits the same messages each time, every message has a text, and the library prints exactly those texts.",
 ["inputs", "histories", "fault_sequences"], "every operation that produces messages, every damaged document and failing memory request behind them, every behaviour of the handler",
 "Tests switch diagnostics off or use a handler that counts.",
 F("mr_message.c", "mr_load.c", "mr_save.c", "lexer.h"),
 M(("message dispatch", "mr_message.c:mr_message"), ("message texts", "mr_message.c:mr_message_format")),
 ["results of operations under different settings of mr_conf.msg_handler and log_level, printed diagnostics"])
prop("P21", "Work stays in step with size, whatever an object's shape and place in memory",
 "Saving, loading (in every format), copying, hashing, comparing and recursively freeing an object takes work in proportion to the number of its parts and the length of its document: eight times the parts never take more than one and a half times eight times the work, for long lists, wide arrays, trees, long strings, shared and back references and unions whose discriminator lies far up, at every spacing and order of the parts in memory; and the same operation costs no more after others than at first. Adding, finding and deleting keys of a hash (with a good hash function) or a tree, finding in a sorted array, and sorting take work in proportion to n log n for every order of keys. (Arrays that overlap many others are exempt, and so is XML or YAML text whose own length grows with the depth of the object.)",
 ["inputs", "histories"], "every shape and size of object, every placement of its parts by the allocator, every order of keys, every earlier history",
 "The complexity test covers one chain of unions; nothing measures growth, and the placement of objects in memory is the allocator's choice in every test.",
 F("mr_save.c", "mr_ic.c", "mr_btree.c", "mr_hsort.c", "metaresc.c", "mr_load.c", "xml2_load.c"),
 M(("hash of object addresses", "mr_save.c:mr_typed_ptrdes_get_hash"), ("position of the last child kept", "metaresc.c:mr_last_child_for_parent"), ("union resolutions remembered", "mr_save.c:mr_union_discriminator, mr_ud_add"), ("geometric growth", "metaresc.c:mr_rarray_allocate_element"), ("balanced trees, rehashing", "mr_btree.c, mr_ic.c:mr_ic_hash_add")),
 ["work done by MR_SAVE_*, MR_LOAD_*, MR_COPY_RECURSIVELY, MR_HASH_STRUCT, MR_CMP_STRUCTS, MR_FREE_RECURSIVELY, mr_ic_*, mr_hsort"])
prop("P22", "A first use that memory is refused to leaves nothing broken for later uses",
 "The first operation of a program on the library builds the tables of all types. When memory requests are refused at that time - any of them, in any number, in one thread or in several that come at once - the operation either does its work in full or reports failure (no document, failure status, no type), and never gives a wrong or incomplete result, crashes, hangs or leaks. As soon as memory is available again every operation works exactly as in a process where nothing was ever refused: same documents, same hashes, same loaded objects, and no more memory held.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every memory request of the initialisation, every first operation, every number of failed attempts, every interleaving of several first users",
 "Tables are built once per process, so a test program has one chance at it and has always finished it before the first case starts; no test refuses memory during it.",
 F("metaresc.c", "mr_udo_init.c", "mr_save.c", "mr_ic.c", "metaresc.h"),
 M(("tables are built at the first use", "metaresc.c:mr_conf_init"), ("field tables and anonymous unions", "metaresc.c:mr_init_struct, mr_anon_unions_extract"), ("enumerations", "metaresc.c:mr_init_enum"), ("one initialiser, others wait", "metaresc.c:mr_conf_init"), ("union discriminator overrides", "mr_udo_init.c:mr_udo_init")),
 ["results of MR_SAVE_*, MR_LOAD_*, MR_COPY_RECURSIVELY, MR_HASH_STRUCT, MR_CMP_STRUCTS, mr_get_td_by_name during and after the refusals", "blocks held"])
prop("P23", "Documents keep their meaning across program versions and hand edits",
 "A text document (CINIT, JSON, SCM, XML1, XML2, YAML) that one version of a program saved loads into a later or earlier version whose structures have the same fields in another order, and into a later version with further fields anywhere in between, as an object that equals the saved one in all common fields, with sizes of arrays in units of the new elements; further fields are zero and nothing is left allocated beside the object. The same holds after edits that change no meaning: white space between tokens, remarks (CINIT, SCM between elements, XML2, YAML lines behind the head), a trailing comma (CINIT), integers in hexadecimal (CINIT, SCM), in parentheses or as a sum (CINIT), characters of strings written as escapes (CINIT, JSON, SCM, XML). (Exempt: XDR, which has no names; unions without a name that change position; the byte size of an array that several pointers share when its elements change size; positions inside of objects that void pointers point at.)",
 ["inputs", "histories"], "every object graph, every order of fields, every set of places and kinds of edits",
 "Tests load documents written for the very type that loads them, mostly as the library printed them; fields always come in the order of their declaration.",
 F("mr_load.c", "cinit_load.l", "cinit_load.y", "json_load.l", "json_load.y", "scm_load.l", "scm_load.y", "xml1_load.l", "xml1_load.y", "xml2_load.c", "yaml_load.c", "metaresc.c"),
 M(("fields are found by name", "mr_load.c:mr_load_struct"), ("names resolved while parsing", "metaresc.c:mr_get_any_fd_by_name"), ("tokens, white space, remarks", "cinit_load.l, json_load.l, scm_load.l, xml1_load.l"), ("escapes", "cinit_load.y:cinit_unquote_str, json_load.y:json_unquote_str, scm_load.y:scm_unquote_str, xml_save.c:xml_unquote_string"), ("sizes of loaded arrays", "mr_load.c")),
 ["object loaded by MR_LOAD_CINIT/JSON/SCM/XML1/XML2/YAML", "blocks held after the load"])
