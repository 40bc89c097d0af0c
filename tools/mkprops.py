import json
P=[]
F={"db":"src/filedb/inner/dbxxx.rs","idx":"src/filedb/inner/idx.rs","key":"src/filedb/inner/key.rs","val":"src/filedb/inner/val.rs","htx":"src/filedb/inner/htx.rs","vf":"src/filedb/inner/vfile.rs","pc":"src/filedb/inner/piece.rs","nc":"src/filedb/inner/nc.rs","tr":"src/filedb/inner/tr.rs","off":"src/filedb/inner/offidx.rs","inner":"src/filedb/inner/mod.rs","mod":"src/filedb/mod.rs","map":"src/filedb/dbmap/mod.rs","ks":"src/filedb/dbmap/kt_dbstring.rs","ki":"src/filedb/dbmap/kt_dbint.rs","kb":"src/filedb/dbmap/kt_dbbytes.rs","lib":"src/lib.rs","mem":"src/memdb.rs"}
def p(i,title,st,over,text,why,mech,state=(),observe=()):
    files=[]
    m=[]
    for name,f,loc in mech:
        if F[f] not in files: files.append(F[f])
        m.append({"name":name,"where":F[f]+": "+loc})
    a={"files":files,"mechanism":m}
    if state: a["state"]=[{"name":n,"meaning":me,"where":w} for n,me,w in state]
    a["observe_at"]=list(observe) or ["results of the public calls"]
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":i,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A file map answers every call exactly as an ordered map would",
 "For the string, integer and byte-string file maps, every get, put, delete (and their string forms) returns what an in-memory ordered map would return after the same calls: get gives the value last put for the key or nothing, delete gives the value it removed or nothing, put replaces. This holds for every key (the empty key, keys of any length and any bytes, keys that share prefixes or hash slots), every value and every number of keys, and no other key is ever affected.",
 ["histories","inputs"],"all sequences of get/put/delete on any keys and values, at any size of the map",
 "the tests replay a few fixed sequences of up to some thousand calls on regular keys; splitting, merging, piece reuse and slot collisions depend on the whole history",
 [("search in nodes","db","keys_binary_search_kt, find_in_node_tree_kt"),("hash shortcut of get","db","get_kt"),("insert and split","db","insert_into_node_tree_kt, balance_on_insert, split_on_insert"),("delete and merge","db","delete_from_node_tree_kt, delete_at, balance_left, balance_right"),("records","key","read_piece, write_piece"),("records","val","read_piece, write_piece"),("slots of the hash file","htx","read_key_piece_offset, write_key_piece_offset")],
 [("index tree","key records in key order",F["idx"]),("hash slot","the record last used for that hash",F["htx"])])
p("C02","Iteration yields every live pair exactly once, in key order",
 "Every way of iterating over a map (iter, iter_mut, a for loop over the map, over a reference or a mutable reference) yields every live pair exactly once, with its current value, in ascending key order (the integer order for integers, byte order otherwise), then end and stay ended. It holds right after any sequence of changes, for the empty map, for several iterators at once, and while other keys are read between steps; whatever methods of an iterator are used (skipping, counting, taking the last, stepping) and wherever it is broken off, they see this sequence. Iterating changes nothing.",
 ["histories","inputs"],"all contents reached by any history of changes, all moments an iterator may be started, interleavings of iterators and reads",
 "tests iterate over a few regular maps; the order of steps depends on the exact tree shape and on keys in inner nodes",
 [("walk of the tree","db","DbXxxIterMut::next_piece_offset, next"),("iterators","map","iter, iter_mut, into_iter"),("order of keys","lib","DbMapKeyType::cmp_u8")])
p("C03","A closed and reopened database has exactly the contents it had",
 "After all handles of a database are dropped, with or without an earlier flush or sync and in any order, opening it again gives maps with exactly the pairs they had, and they keep working as before. It holds for any number of sessions and any changes in each, including a map that was emptied, one that was only read, and one whose only changes were overwrites.",
 ["histories","inputs"],"all histories of changes, cut into sessions at any points, closed in any way",
 "tests reopen a few times after short fixed sequences with explicit syncs; what remains in caches at a close depends on the history",
 [("saving of cached nodes at close","idx","Drop of IdxFile"),("node cache","nc","flush, detach_cache, Drop"),("headers","idx","check_idxf_header, write_idxf_init_header"),("file buffers","vf","VarFile"),("dirty state","db","flush, sync_all, sync_data")])
p("C04","After a successful flush or sync the files hold everything, and is_dirty tells",
 "After flush, sync_all or sync_data of a map, or sync_all or sync_data of a database, returned Ok, the files of that map (of all maps of that database) hold exactly its current contents: a process killed at once, or another reader of the files, finds every pair. is_dirty returns false only when the files hold everything, is true after a change that was not saved, and is false after a successful save.",
 ["crash_points","histories"],"all histories of changes, followed by any of the saving calls, killed right after it; any moment at which is_dirty is false",
 "tests never look at the files while the map is open nor kill a process; whether a change marks the map dirty depends on which path the change took",
 [("saving calls of a map","db","FileDbXxxInner::flush, sync_all, sync_data, is_dirty"),("saving calls of a database","mod","FileDb::sync_all, sync_data"),("saving calls of a database","inner","sync_all, sync_data"),("files","idx","flush, sync_all, sync_data"),("node cache","nc","flush")],
 observe=["bytes of the files as another process sees them"])
p("C05","A successful sync makes the contents durable against power loss",
 "When sync_all or sync_data of a map or of a database returned Ok, every byte written to each of that map's (those maps') files before has been followed by a successful fsync or fdatasync of the file, even if an earlier flush or other call had already written the bytes and even if nothing changed since. So what has been synced is, on its own, exactly the contents at that time: a power loss right after the call loses nothing.",
 ["crash_points","histories"],"all histories of changes, flushes and syncs; power loss right after any successful sync",
 "a test cannot see whether the kernel was asked to sync; no test loses unsynced bytes",
 [("sync of a map","db","sync_all, sync_data"),("sync of each file","idx","sync_all, sync_data"),("sync of each file","key","sync_all, sync_data"),("sync of each file","val","sync_all, sync_data"),("sync of each file","htx","sync_all, sync_data"),("sync below the buffer","vf","sync_all, sync_data"),("all maps of the database","inner","sync_all, sync_data")],
 observe=["write, truncate and fsync calls of the process"])
p("C06","Bulk calls equal the same single calls done in the given order",
 "bulk_get, bulk_put and bulk_delete and their string forms return and leave exactly what the single calls would, done one after the other in the order of the argument: results stand at the position of their key, of repeated keys in a bulk put the last one wins, a repeated key in a bulk delete is found only the first time. It holds for file maps and for memory maps, and for empty arguments.",
 ["inputs","histories"],"all lists of keys or pairs (any order, any repetitions, any length) on any contents",
 "tests pass short lists of distinct keys; the calls sort the list, so position and repetition matter",
 [("bulk calls","lib","DbXxx::bulk_get, bulk_put, bulk_delete and the string forms"),("memory maps","mem","MemoryDbMap")])
p("C07","Maps, databases and handles do not disturb each other",
 "Calls on one map never change what any other map of the same or of another database holds or answers, whatever their names, kinds and interleaving; two handles of the same map obtained from one database are the same map and see each other's changes at once. Opening, using and dropping a map touches only its own files in its own directory.",
 ["histories","configurations"],"all interleavings of calls over several maps of one or several databases, with handles opened, cloned and dropped at any time",
 "tests use one or two maps one after the other; nothing else looks at the other files of the directory",
 [("table of open maps","inner","db_map_string, db_map_int, db_map_bytes and their insert functions"),("handles","mod","FileDb::db_map_*"),("names of files","key","open_with_params"),("names of files","idx","open_with_params")])
p("C08","The index tree stays ordered, balanced and dense, of logarithmic depth",
 "After any history of puts and deletes the saved index is a search tree: every key once and in order, all leaves at the same depth, every node but the root at least half full and none over full, so its depth grows with the logarithm of the number of keys. The library's own checks of this (balanced, valid search tree, dense, depth) agree with it at any time.",
 ["histories","inputs"],"all histories of puts and deletes, at any moment",
 "tests call the library's own checks after a few sequences; an independent reader of the saved tree is needed, on trees of several levels at the edge of splitting and merging",
 [("split","db","balance_on_insert, split_on_insert"),("merge and move","db","balance_left, balance_right, move_a_node_from_right_to_left, move_left_right, trim"),("the library's checks","idx","is_balanced, is_mst_valid, is_dense, depth_of_node_tree")],
 observe=["bytes of the index file"])
p("C09","Every byte of the files belongs to the header, one live or one free record",
 "In the saved files of a map the header, the live records and the records on the free lists tile each file exactly: none overlap, none is lost, none is both live and free, and each free record is on the list of its size exactly once. Every live record is reachable from the index and holds exactly one key, one value or one node.",
 ["histories","inputs"],"all histories of puts, overwrites of any length and deletes, over any number of sessions",
 "no test reads the free lists against the live records; leaks and double uses show only after particular sequences of sizes",
 [("free lists","pc","push_free_piece_list, pop_free_piece_list, pop_free_piece_list_large"),("freeing and reuse","key","write_piece, delete_piece"),("freeing and reuse","val","write_piece, delete_piece"),("freeing and reuse","idx","write_node, delete_node"),("rounding of sizes","pc","roundup, can_down")],
 observe=["bytes of the key, value and index files"])
p("C10","Deleted space is reused: the files of a bounded map stay bounded",
 "However long a map is used, the length of its files is bounded by the number and the sizes of the pairs it held at the same time at its fullest: with records of one size the files never get longer than that many records need, and overwriting or deleting and putting again does not make them grow for ever.",
 ["histories"],"all histories over a bounded set of keys and bounded values, of any length, over any number of sessions",
 "tests run short sequences and never look at the length of the files",
 [("reuse of free records","pc","pop_free_piece_list, pop_free_piece_list_large, can_down"),("in-place overwrite","val","write_piece"),("in-place overwrite","key","write_piece"),("nodes","idx","write_node, delete_node")],
 observe=["lengths of the files"])
p("C11","The hash file only speeds up: without it every answer is the same",
 "Removing the hash file of a closed map, or forgetting any of its entries, changes no answer of the reopened map: every key is found, every absent key is absent, and changes work as before. An entry of the saved hash file never leads to a record which is not live.",
 ["histories","inputs"],"all histories, with any subset of entries forgotten between sessions, keys sharing slots as hostile keys do",
 "tests never change the hash file and use few keys, so that slots are hardly ever shared",
 [("shortcut and fallback","db","get_kt"),("updates of the slots","db","put_kt, del_kt, keys_is_empty_on_insert_, store_value_on_insert"),("slots","htx","read_key_piece_offset, write_key_piece_offset")],
 [("hash slot","offset of a key record whose hash falls there, or zero",F["htx"])],
 observe=["results of the public calls","bytes of the hash file"])
p("C12","The buffer parameters change speed, never behaviour or stored bytes' meaning",
 "Whatever buffer sizes are asked for when a map is opened (automatic, any per mille, any fixed size however small or large, different for each file), every call gives the same result and the saved files have the same contents. Maps written under one setting open under any other.",
 ["configurations","histories"],"all settings of the buffer parameters for the four files, any history, with a new setting at each session",
 "tests run under the default and one or two fixed settings with small data, so that hardly any buffer is ever evicted",
 [("choice of the buffer","vf","with_capacity, with_per_mille, new"),("parameters","mod","FileBufSizeParam, FileDbParams"),("parameters","val","open_with_params"),("parameters","idx","open_with_params")])
p("C13","The in-memory database behaves as an ordered map and as the file database",
 "Maps of the memory database answer every call (single, bulk and string forms, for the three kinds of keys) as an ordered map would, iterate over every pair exactly once, and the same calls on a file map give the same results. Two handles of the same name are the same map; different names and kinds do not disturb each other.",
 ["histories","inputs"],"all histories of calls on maps of the memory database, for keys valid for their kind",
 "tests run one fixed sequence per kind",
 [("memory maps","mem","MemoryDbMap get_kt, put_kt, del_kt"),("table of maps","mem","MemoryDb db_map_*"),("provided calls","lib","DbXxx")])
p("C14","Files of another kind are refused and stay as they were",
 "A file that is not of the expected format, or was written for another kind of keys, or belongs to another of the four roles, is refused when the map is opened, by an error or a panic and before anything is read from it as data or written to it; the files stay byte for byte as they were and still open under the right kind. A newly created map carries the right signatures as soon as it has been created.",
 ["inputs","configurations"],"all pairs of written and asked kind of key, all swaps of the four files, any damage to the signature bytes",
 "no test opens a file under a wrong kind",
 [("check of the header","key","check_keyrecf_header"),("check of the header","val","check_valrecf_header"),("check of the header","idx","check_idxf_header"),("check of the header","htx","check_htxf_header"),("signature of the kind","lib","DbMapKeyType::signature"),("signatures","ks","signature"),("signatures","ki","signature"),("signatures","kb","signature")])
p("C15","No history of calls causes undefined behaviour, overflow, abort or panic",
 "No sequence of calls with valid keys and any values on a healthy database (no map changed while an iterator over it is in use) causes an invalid memory access, another kind of undefined behaviour, an arithmetic overflow, a failed internal assertion, a panic, an abort or an endless loop, in release or in debug builds.",
 ["histories","inputs","configurations"],"all histories of public calls (changes, reads, iteration, statistics, saves, reopens) with any arguments, in builds with and without checks",
 "tests run without sanitizers on sequences that do not reach the unsafe code with unusual lengths, evicted buffers or recursive node shapes",
 [("unsafe encoders and decoders","vf","read_*, write_* of VarFile"),("unsafe offset arrays","tr","IdxNode and its pieces"),("unsafe node handling","db","keys_binary_search_kt and others"),("unsafe node cache","nc","get, put"),("offset index","off","OffsetIndex")],
 observe=["AddressSanitizer, Miri, debug assertions, overflow checks"])
p("C16","Reading never changes the stored bytes",
 "Opening an existing map, get, bulk_get, iteration, the statistics and tree checks, read_fill_buffer, is_dirty, deleting keys that are not there, and saving or closing after only such calls leave the key, value and index files byte for byte as they were; in the hash file they may change only which live record a slot remembers. Calls that only read do not make a clean map dirty.",
 ["histories","inputs"],"all contents, all sequences of calls that change no pair",
 "no test compares the files before and after reading",
 [("reading","db","get_kt, del_kt, iterators"),("opening","idx","open_with_params"),("statistics","idx","graph_string, count_of_used_node, piece_size_stats, length_stats"),("dirty state","db","is_dirty")],
 observe=["bytes of the files"])
p("C17","Failing, short and interrupted system calls lose nothing silently",
 "When a write or sync fails during flush, sync_all or sync_data, the call returns an error instead of Ok, the map goes on to answer correctly, and once a later save returns Ok the files hold everything; a failed read is reported, and later calls answer correctly. Short reads and writes and interrupted calls make no difference at all, and Ok from a save always means that everything is in the files.",
 ["fault_sequences","histories"],"all sequences of failing writes and syncs during saves (out of space, I/O error) and of failing reads, short transfers and interruptions anywhere",
 "no test makes a system call fail",
 [("errors of the saves","db","flush, sync_all, sync_data"),("node cache after an error","nc","flush"),("file layer","vf","flush, sync_all, sync_data, read, write"),("dirty state","idx","flush, sync_all, sync_data")],
 observe=["outcomes of the system calls below the library"])
p("C18","Statistics and diagnostics report what is stored",
 "The counts of free and used records by size, key counts per node, record-size and length statistics, tree depth, hash-table size and count, filling rate and the tree drawing agree with what is actually stored at that moment, for saved and for unsaved maps, and asking for them changes nothing.",
 ["histories","inputs"],"all contents reached by any history, with changes saved or not",
 "tests print some of them without a reference",
 [("counts","idx","count_of_used_node, count_of_free_node, keys_count_stats, piece_size_stats, length_stats, graph_string"),("counts","key","count_of_free_key_piece"),("counts","val","count_of_free_value_piece"),("hash table","htx","ht_size_and_count, htx_filling_rate_per_mill"),("calls","db","CheckFileDbMap")])
p("C19","The file format is stable: old databases open, new ones read the same",
 "Databases written by the released version of the library open with all their contents, can be changed and stay correct; databases written now follow the same format (headers, signatures, encodings of nodes, keys, values, sizes, free lists and hash slots), as a reader independent of the library understands it.",
 ["configurations","inputs"],"all databases written by the pinned version (any kind, any history), all databases written now",
 "tests write and read with the same code, so that a change of both sides goes unnoticed",
 [("headers","idx","write_idxf_init_header"),("headers","key","write_keyrecf_init_header"),("headers","val","write_valrecf_init_header"),("headers","htx","write_htxf_init_header"),("encodings","vf","read_*, write_*"),("nodes","tr","IdxNode"),("hash function","lib","HashValue, MyHasher")],
 observe=["bytes of the four files"])
p("C20","Key types convert without loss and compare as their stored bytes do",
 "Every conversion between the key types and strings, byte strings, integers and their stored bytes gives back what was put in, keys compare by a total order that agrees with the comparison against stored bytes (numeric for integers in range, bytewise otherwise) and with equality and hash, and all ways of naming the same key (owned, borrowed, converted) reach the same pair.",
 ["inputs"],"all keys of the three kinds and all pairs of them",
 "tests try a handful of ASCII strings and small integers",
 [("conversions","ks","From, from_bytes, as_bytes, cmp_u8"),("conversions","ki","From, from_bytes, as_bytes, cmp_u8"),("conversions","kb","From, from_bytes, as_bytes, cmp_u8"),("hash","lib","HashValue, MyHasher")])
p("C21","Every length and file position is stored and read back, or refused",
 "Keys and values of every length, in particular around the limits of the variable-length encodings, of record sizes and of buffer chunks, are stored and read back unchanged, wherever in a file they come to lie, including beyond 4 GiB; a key or a value which is too long for the format is refused with an error and leaves the map as it was.",
 ["inputs","histories"],"all key and value lengths, all positions in the files",
 "tests use short keys and values in small files; the limits lie at particular lengths and offsets",
 [("lengths","key","encoded_piece_size, write_piece"),("lengths","val","encoded_piece_size, write_piece"),("encodings","vf","read_key_len, read_value_len, read_piece_size, read_piece_offset, read_free_piece_offset"),("size classes","pc","roundup"),("hash slots","htx","write_key_piece_offset")])
p("C22","Dropping the handles releases every resource",
 "When all handles of a database and of its maps and iterators are dropped, in any order, every file is saved and closed; the number of open files stays four per open map however often maps are opened again, used and dropped, and the database may then be removed or opened anew.",
 ["histories"],"all orders of creating, cloning and dropping handles, repeated any number of times",
 "no test counts open files",
 [("handles","mod","FileDb"),("table of open maps","inner","FileDbInner"),("shared state","map","FileDbMap"),("close","idx","Drop of IdxFile")],
 observe=["/proc/self/fd"])
p("C23","The behaviour is the same in every supported build configuration",
 "The optional features that select caches (LRU, LFU, off), node layouts, encodings of sizes and offsets, the hash file, buffer eviction and key caching change neither the result of any call nor what is found after a reopen. Each configuration that compiles gives the same answers as an ordered map.",
 ["configurations","histories"],"all feature combinations that compile, any history",
 "tests run under the default features only",
 [("node cache","nc","NodeCache for the three cache features"),("encodings","vf","vf_* features"),("node layout","tr","tr_* features"),("hash file","db","htx feature"),("key cache","db","nodes and keys features")])
p("C24","The work of a call follows the depth of the tree, not the number of pairs",
 "The time of get, put and delete and of a step of an iteration, and the number of file chunks they read and write when the buffers are small, grow at most with the logarithm of the number of pairs. Opening a map, is_dirty, starting an iteration, and saving or closing after a single change cost the same for a large map as for a small one. Neither the number of earlier calls nor the number of free records of the small size classes makes a call slower, and an open map holds no more memory than its buffers and a bounded number of nodes.",
 ["inputs","histories"],"all contents and sizes of a map, any number of earlier calls, any moment",
 "tests assert results on small maps; work that grows with the map shows only in comparison with a map that is much larger",
 [("search","db","get_kt, keys_binary_search_uu_kt, insert_into_node_tree_kt, delete_from_node_tree_kt"),("steps of an iteration","db","DbXxxIterMut::next_piece_offset"),("node cache","nc","NodeCache: size and eviction"),("free lists by size","vf","pop_free_piece_list, push_free_piece_list"),("open","idx","open_with_params"),("save","inner","flush and sync of a database")],
 observe=["CPU time of the thread","read and write system calls","live bytes of the heap"])
p("C25","What was deleted or replaced is gone from the saved files",
 "After a save or a close no byte of a deleted key, of a deleted value or of a replaced value is left in the files of the map: a record on a free list is cleared, and so is the rest of a record which holds a shorter key, value or node than before. It holds for records of every size and for any history, so that what was deleted cannot be read from the files.",
 ["histories","inputs"],"all histories of puts and deletes with keys and values of all lengths",
 "no test looks at the bytes of freed records; which record is cut, joined or reused depends on the history",
 [("free a record","pc","push_free_piece_list, pop_free_piece_list"),("clear","vf","write_zero_to_offset, write_piece_clear, write_node_clear"),("rest of a record","val","dat_write_piece_one"),("rest of a record","key","dat_write_piece_one"),("rest of a node","tr","idx_write_node_one")],
 observe=["bytes of the saved files"])
p("C26","Databases used by different threads do not disturb each other",
 "When several threads of a process use databases of their own at the same time (one database is used by one thread), in any interleaving of opening, calls, iteration, saving and closing, every call answers as if its database were the only one, the files of each hold exactly what its thread stored, also when a thread ends with its database open, and no memory of the library is accessed by two threads without synchronisation. A handle which the compiler lets through to another thread can be used there.",
 ["schedules","histories"],"all interleavings of threads that each use a database of their own, memory databases included",
 "tests of one binary run in threads, but share little at the same moment, and a race shows only in particular schedules",
 [("databases","mod","FileDb"),("shared state","map","FileDbMap"),("files","vf","VarFile"),("node cache","nc","NodeCache"),("hash function","lib","HashValue, MyHasher")],
 observe=["results of the public calls","bytes of the four files","memory accesses (ThreadSanitizer)"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
