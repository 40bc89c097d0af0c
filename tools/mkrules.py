import json
base="one evaluation is one generated case (script of calls, run against the real library and judged by the monitor of this property); two cases are distinct when the digests of the generated script and parameters differ; "
R={}
def r(p,text,req,**k):
    R[p]=dict(rule=base+text,required=req,**k)
r("C01","a case counts when every call's result was compared with the model's",["raw_key_cases","giant_cases","crowd_cases","operations","get_hit","get_miss","put_new","put_overwrite","delete_hit","delete_miss","verified_gets","iterated_pairs","cases_bytes","cases_int","cases_string"])
r("C02","a case counts when at least one full iteration was compared pair by pair with the model",["iterators_in_a_row","giant_cases","crowd_cases","iterations","iterated_pairs","interleaved_pairs","iterator_walks","iterator_walk_answers","deep_cases","iterated_at_depth_4"])
r("C03","a case counts when the database was closed in one of nine ways and every pair was compared after reopening",["sessions_in_a_row","raw_key_cases","giant_cases","crowd_cases","reopens","verified_gets","iterated_pairs"]+["close_%d"%i for i in range(9)])
r("C04","a case counts when the files as a killed process leaves them were taken after a successful save and read by the independent reader or reopened",["saves_in_a_row","changes_before_a_save","images_read","images_reopened","processes_killed","clean_moments","after_flush","after_sync_all","after_sync_data","after_sync_all_of_the_database","after_sync_data_of_the_database","only_overwrites"],level="fault_enumeration")
r("C05","a case counts when for every successful sync the system calls recorded below the library were checked, and the image of only fsynced bytes was read",["saves_in_a_row","written_files_checked","images_read","calls_Write","calls_Sync","after_sync_all","after_sync_data","after_sync_all_of_the_database","after_sync_data_of_the_database"],level="fault_enumeration")
r("C06","a case counts when results and final contents of bulk calls were compared with the calls one by one",["bulk_get_keys","bulk_put_keys","bulk_delete_keys","memory_cases","long_lists","verified_gets"])
r("C07","a case counts when calls on several maps, handles and databases interleaved and all of them were compared with their own model",["maps_in_a_database","operations","extra_handles","reopened_databases","verified_gets"])
r("C08","a case counts when at least one saved tree was read node by node; states are the multisets of node fillings per level",["trees_read","nodes_checked","library_checks","trees_of_depth_4","deep_cases"],state_rule="distinct tree shapes (number of keys of each node, by level)")
r("C09","a case counts when every byte of the saved files was assigned to a header, a live piece or a free piece",["far_files_read","giant_cases","crowd_cases","files_accounted","pieces_checked"],state_rule="distinct layouts (length and state of all pieces in file order)")
r("C10","a case counts when a file length was compared with the bound derived from the largest live data",["cycle_crowds","bounds_checked","cycle_bounds_checked","operations"])
r("C11","a case counts when the hash file was removed, or slots of it were cleared, and contents were compared afterwards",["files_extended","hash_files_removed","hash_slots_cleared","hash_slots_checked","keys_in_shared_slots","verified_gets"])
r("C12","a case counts when the same script ran under several sets of buffer parameters with equal results",["giant_cases","parameter_sets","verified_gets","files_compared"])
r("C13","a case counts when every call's result on the in-memory map was compared with the model's",["raw_key_cases","memory_map_names","memory_pairs","operations","compared_with_files","bulk_put_keys","verified_gets"])
r("C14","a case counts when opening files of another kind was tried and refused, with the files unchanged, and the right kind still opened",["refused","damaged_signatures","refused_while_open","new_maps","verified_gets"])
r("C15","a case counts when it ran to its end under one of the instrumentations without a report; the scenarios are those of the other properties",["kind_0","kind_1","kind_2","kind_3","kind_4","kind_5","kind_6","kind_7","kind_8","operations"])
r("C16","a case counts when the digest of all files was compared before and after calls that only read",["reads_in_a_row","hash_statistics","giant_cases","crowd_cases","digests_compared","deletes_of_absent_keys"]+["read_kind_%d"%i for i in range(12)])
r("C17","a case counts when at least one call below the library failed, was short or was interrupted while its outcome was observed",["wide_cases","ok_checked_beside","faults_reported","ok_checked","reported_Write","reported_Sync","short_transfers","interrupted_calls","reads_failed","reads_reported"],level="fault_enumeration",state_rule="distinct (kind of call, file, position of the failing call) schedules")
r("C18","a case counts when at least one statistic was compared with the value the independent reader computed",["giant_cases","crowd_cases","statistics_compared","graph_keys"])
r("C19","a case counts when a database written by the pinned original was opened, read and updated, or a new one was read by the independent reader",["golden_databases","new_databases","verified_gets"])
r("C20","a case counts when conversions and comparisons of generated keys were compared with the reference ones",["key_pairs","keys_through_maps"])
r("C21","a case counts when values and keys with lengths around the limits of the encodings were stored and read back",["far_files_read","lengths_stored","files_extended","values_refused","verified_gets"])
r("C22","a case counts when the open descriptors of the process were counted around the life of databases and maps",["large_maps","descriptor_counts","rounds"])
r("C23","the configuration is part of the case; a case counts when every call's result was compared with the model's in that configuration",["operations","reopens","iterated_pairs","interleaved_pairs","verified_gets"])
r("C24","a case counts when every kind of call was measured on a small map and on one about a hundred times as large",["timed_calls","counted_calls","chunks_read","chunks_written","opened_maps","thinned_maps"])
r("C25","a case counts when every byte outside live content was looked at in the saved files and found zero",["giant_cases","crowd_cases","unused_bytes_seen_empty","free_records_seen_empty","live_records_seen","looked_after_a_close","emptied_maps","operations"])
r("C26","a case counts when at least two threads with databases of their own took turns more often than they are many, each call was compared with the model of its thread, and the files were read afterwards",["threads","thread_switches","operations","databases_read_afterwards","closed_by_the_end_of_the_thread","memory_maps","types_asked","sessions"])
A=["one thread, one process and one open database per directory at a time: the handles cannot be sent to another thread",
   "the script generator reaches only what its seeds reach; no claim is made for scripts it did not draw"]
for p in R: R[p]["assumptions"]=list(A)
R["C05"]["assumptions"].append("a file system keeps fsynced bytes, and may lose or keep any other; directory entries are taken as durable")
R["C04"]["assumptions"].append("the kernel keeps what write() was given when a process is killed")
R["C17"]["assumptions"].append("faults strike the calls made by flush and sync (and reads, short and interrupted transfers anywhere); a write error in the middle of one put is outside the property")
R["C24"]["assumptions"].append("a growth is told from the logarithm when the time of a call on the large map is more than sixteen times that on the small one in four measurements, or more than 6 + 2 log2 n chunks are read and written")
R["C26"]["assumptions"]=["every thread has a database in a directory of its own: two databases on one directory at a time are outside the property","the schedules are those the operating system makes with eight processors, random yields and sleeps; no claim is made for others","ThreadSanitizer sees the library, its dependencies and the standard library, which are all built with it"]
R["C26"]["state_rule"]="distinct digests of the order in which the threads of a case took turns"
json.dump(R,open('/verif/rules.json','w'),indent=1)
