A = lambda files, mech, state=(): dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state])
NOTE = 'Proof: every obligation of every listed contract is discharged for all inputs and all loop iterations from the current source; the same contracts run natively on the compiled code to produce failing inputs. '
PROPS = [
 dict(id='P01', title='Region overlap is exact box intersection',
      statement='Two n-dimensional regions are reported as overlapping exactly when they have a point in common, and the reported overlap is exactly their intersection, in every dimension; nothing is reported when they are disjoint. A region is reported as contained in another exactly when all its points lie in it. The inputs are not changed.',
      over=['inputs'], quant='all dimension counts, all 64-bit offsets and sizes whose end does not overflow',
      why='No existing test calls the overlap functions; the input space is 2^64 per coordinate and the mistakes are at touching edges.',
      anchors=A(['src/utils/pdc_region_utils.c'], [('check_overlap', 'src/utils/pdc_region_utils.c'), ('PDC_region_overlap_detect', 'src/utils/pdc_region_utils.c'), ('detect_region_contained', 'src/utils/pdc_region_utils.c')]),
      note=NOTE + 'Any number of dimensions. Assumes non-empty regions without overflow of offset+size.'),
 dict(id='P02', title='Sub-region and overlap copies move exactly the addressed bytes',
      statement='Gathering a sub-region out of a row-major buffer, scattering it back, and copying the overlap of two regions between their buffers put every element at the position its coordinates address, for 1, 2 and 3 dimensions and any element size. No byte outside the copied box is written and no byte outside either buffer is touched.',
      over=['inputs'], quant='all extents, offsets, element sizes and buffer contents in 1 to 3 dimensions',
      why='No existing test calls the copy functions; the stride arithmetic is right or wrong depending on which extents happen to be equal.',
      anchors=A(['src/utils/pdc_region_utils.c'], [('memcpy_subregion', 'src/utils/pdc_region_utils.c'), ('memcpy_overlap_subregion', 'src/utils/pdc_region_utils.c')]),
      note=NOTE + 'Unbounded extents (nonlinear arithmetic). Assumes buffers below 2^62 bytes that do not alias.'),
 dict(id='P03', title='The deque is a double-ended sequence',
      statement='After any history of pushes and pops at both ends the deque holds exactly the elements a mathematical double-ended sequence would hold, in order: a pop returns the first or last element, or nothing when empty. Growing, shrinking and wrap-around of its storage are not observable.',
      over=['histories'], quant='all histories of push/pop at either end, of any length',
      why='No existing test drives the deque through wrap-around combined with growth or shrinking.',
      anchors=A(['src/commons/collections/pdc_deque.c'], [('PDC_deque_push_back', 'src/commons/collections/pdc_deque.c'), ('resize of the ring buffer', 'src/commons/collections/pdc_deque.c')],
                [('head, tail, size, capacity, data', 'ring buffer', 'src/commons/collections/include/pdc_deque.h')]),
      note=NOTE + 'Induction over histories through the representation invariant.'),
 dict(id='P04', title='Vector is an append-only sequence and stack is last-in first-out',
      statement='A vector returns at every index exactly the item added there, whatever its initial capacity and expansion factor; iteration yields the items in order; a failed allocation leaves it unchanged; destroying it releases every item once. A stack pops elements in the reverse order of their pushes.',
      over=['histories', 'fault_sequences', 'configurations'], quant='all histories of operations, all capacities and expansion factors, all allocation failures',
      why='No existing test uses unusual capacities, factors or allocation failure.',
      anchors=A(['src/commons/collections/pdc_vector.c', 'src/commons/collections/pdc_stack.c'], [('pdc_vector_add', 'src/commons/collections/pdc_vector.c'), ('stack_push/stack_pop', 'src/commons/collections/pdc_stack.c')]),
      note=NOTE),
 dict(id='P05', title='The hash table is a finite map',
      statement='After any history of inserts, lookups, removals and iterations a lookup returns the value last inserted under an equal key, or nothing if it was removed or never inserted; the entry count and iteration agree with this map, each entry being visited once. Growth of the table, colliding hashes and failed allocations do not change the map, and the free callbacks are called exactly once for each key and value the table lets go.',
      over=['histories', 'inputs', 'fault_sequences'], quant='all histories, all hash and equality functions that are consistent, all allocation failures; both copies of the table (common and server)',
      why='Existing tests store a handful of keys; rehashing, chain removal and failed growth depend on how keys collide.',
      anchors=A(['src/commons/collections/pdc_hash_table.c', 'src/server/pdc_hash-table.c'], [('hash_table_insert / enlarge / remove', 'src/commons/collections/pdc_hash_table.c')],
                [('table, table_size, entries', 'array of bucket chains', 'src/commons/collections/pdc_hash_table.c')]),
      note=NOTE + 'Chains of any length, any table size reachable. Assumes callbacks do not touch the table and keys are not mutated.'),
 dict(id='P06', title='The hash set is a set, and union and intersection are exact',
      statement='After any history of insertions and removals membership, size, iteration and array conversion agree with a mathematical set; union and intersection contain exactly the elements they should. Failed allocations leave the operands unchanged, and the free callback is called exactly once for each element the set lets go.',
      over=['histories', 'fault_sequences'], quant='all histories, all consistent hash and equality functions, all allocation failures',
      why='No existing test exercises the set through growth with collisions or allocation failure.',
      anchors=A(['src/commons/collections/pdc_set.c'], [('set_insert / set_remove / set_enlarge', 'src/commons/collections/pdc_set.c'), ('set_union, set_intersection', 'src/commons/collections/pdc_set.c')]),
      note=NOTE + 'union, intersection and to_array are decided by the native contract run only.'),
 dict(id='P07', title='Built-in key functions are consistent',
      statement='For every built-in key type (int, long, 64-bit, double, pointer, string, case-insensitive string) equality is an equivalence relation that is equality of the values, equal keys have equal hashes, hashing depends on the key value only, and each comparison function is the total order of the values and agrees with the equality.',
      over=['inputs'], quant='all pairs and triples of key values',
      why='Existing tests do not hash or compare keys near the boundaries where equality, order and hash could disagree.',
      anchors=A(['src/commons/collections/pdc_compare.c', 'src/commons/collections/pdc_hash.c', 'src/commons/collections/pdc_hash_table.c'],
                [('compare/equal', 'src/commons/collections/pdc_compare.c'), ('hash', 'src/commons/collections/pdc_hash.c'), ('pdc_default_*_func', 'src/commons/collections/pdc_hash_table.c')]),
      note=NOTE + 'Scalar keys bit-precisely by cbmc for all values; string equality/hash agreement bounded to 4 characters (longer ones natively).'),
 dict(id='P09', title='DART routing reaches what an insert placed',
      statement='For every ring (servers, alphabet, replication, tree height) and every key, an insert routes each suffix of the key to the configured number of replicas, all of them existing servers, at the less loaded of its two candidate nodes. An exact or suffix search contacts one replica of each candidate and so always reaches a server that holds the key, a delete contacts every server that may hold it, and a short prefix or infix search contacts every server of its region of the ring. The comparison hash (DHT) sends insert, exact search and delete of a key to the same server.',
      over=['inputs', 'configurations', 'histories'], quant='all keys (any bytes, any length including empty), all ring parameters, all server loads, all counter values',
      why='No existing test routes keys; a wrong region only loses the keys whose virtual node lies at its edge.',
      anchors=A(['src/commons/index/dart/dart_core.c', 'src/commons/index/dart/dart_math.c'], [('get_server_ids_for_insert / get_server_ids_for_query / DART_hash', 'src/commons/index/dart/dart_core.c'), ('get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2', 'src/commons/index/dart/dart_core.c')],
                [('num_vnode, num_server, alphabet_size, replication_factor, client_request_count', 'geometry of the ring and round-robin counter', 'src/commons/index/dart/dart_core.h')]),
      note=NOTE + 'Any number of virtual nodes below 2^31. The ring construction and the loop over suffixes in DART_hash are decided natively only.'),
 dict(id='P08', title='The radix tree is an ordered map from strings',
      statement='After any history of inserts (with or without replacement) and deletes, a search of the adaptive radix tree returns the value stored under exactly that string or nothing, the size is the number of strings, iteration yields every entry once in byte order, prefix iteration yields exactly the entries whose key starts with the prefix, and minimum and maximum are the first and last of them. Growing, shrinking and splitting of nodes is not observable; destroying the tree releases all its memory.',
      over=['histories', 'inputs'], quant='all histories, all strings (any non-zero bytes, empty strings, prefixes of each other, shared prefixes longer than a node stores)',
      why='No existing test drives a node through its sizes 4/16/48/256 or through prefixes longer than 10 bytes.',
      anchors=A(['src/commons/collections/art.c'], [('find_child / add_child* / remove_child*', 'src/commons/collections/art.c'), ('recursive_insert / recursive_delete / art_search / art_iter_prefix', 'src/commons/collections/art.c')],
                [('partial, partial_len', 'compressed path', 'src/commons/collections/include/art.h'), ('keys, children', 'children by byte', 'src/commons/collections/include/art.h')]),
      note=NOTE + 'Node operations proved (node4/16 per child count; node48/256 by cbmc with full unwinding; two shrinking cases bounded); composition into trees is decided natively.'),
 dict(id='P10', title='Bloom filters never lose an element',
      statement='A key that was added to a counting or scaling Bloom filter, and not removed as often as it was added, is always reported present, as long as no 4-bit counter overflows, however many sub-filters a scaling filter has grown. Removing an added key undoes exactly its addition: a filter from which everything was removed has all counters zero. Absent keys are reported present at about the configured rate.',
      over=['histories', 'inputs'], quant='all histories of add and remove, all keys, capacities and error rates',
      why='The existing test does not grow a filter; a lost counter shows only for keys added before the growth.',
      anchors=A(['src/server/dablooms/pdc_dablooms.c', 'src/server/dablooms/pdc_murmur.c'], [('counting_bloom_add / remove / check', 'src/server/dablooms/pdc_dablooms.c'), ('bitmap_resize on growth', 'src/server/dablooms/pdc_dablooms.c')],
                [('array', '4-bit counters behind the headers', 'src/server/dablooms/pdc_dablooms.h')]),
      note=NOTE + 'Add, remove, check, hashing and resize proved; growth of a scaling filter decided natively.'),
 dict(id='P11', title='RPC messages arrive as they were sent',
      statement='For every RPC message the client and server exchange, encoding a message and decoding it gives a message whose every field equals the one sent, including variable-length parts (attribute values, histograms, query constraints), and consumes exactly what was encoded. Encoding does not change the message; decoding writes within the memory it allocates; releasing a decoded message is safe.',
      over=['inputs'], quant='all values of all fields of all message types',
      why='The tests that exchange messages need a running server and use small values; a truncated or omitted field shows only for particular values.',
      anchors=A(['src/server/include/pdc_client_server_common.h', 'src/server/pdc_client_server_common.c'], [('hg_proc_* encoders', 'src/server/include/pdc_client_server_common.h'), ('hg_proc_pdc_query_xfer_t', 'src/server/pdc_client_server_common.c')]),
      technique='contract-based deductive verification: one round-trip contract per message, generated from its definition, discharged by cbmc on the loop-free encoders (no bound); the same contracts executed natively',
      note=NOTE + 'One contract per message type, generated from the current definitions; Mercury itself is replaced by a lossless wire.'),
 dict(id='P12', title='Wildcard patterns and tag lists match exactly what they denote',
      statement='A pattern without leading or trailing * matches only the equal string, "abc*" exactly the strings that start with abc, "*abc" exactly those that end with it, "*abc*" exactly those that contain it, and "*" every string; nothing matches a missing string. Looking for a tag in a "key=value,key=value" list finds the first pair whose key (and value, when asked) matches, and nothing else. Keys, values and substrings cut out of a string are exactly those characters, an invalid range gives NULL, and a query generated from a tag has exactly the affix of the configured length. No input is changed, and no operation reads outside its strings or fails to terminate.',
      over=['inputs'], quant='all strings and patterns, any bytes, any length including empty; all tag lists; all ranges',
      why='Existing tests match a few fixed words; "*", patterns longer than the string, empty keys and repeated delimiters are not among them.',
      anchors=A(['src/commons/utils/string_utils.c', 'src/commons/utils/query_utils.c'], [('simple_matches / determine_pattern_type / substring', 'src/commons/utils/string_utils.c'), ('k_v_matches_p / is_value_in_range / _gen_affix_for_token', 'src/commons/utils/query_utils.c')]),
      note=NOTE + 'Strings of any length. split_string and the assembly of generated queries are decided natively only.'),
 dict(id='P13', title='The metadata index is an exact relation',
      statement='The server index of attributes is a relation between words of keys, words of values and object ids. Inserting (key, value, id) relates id to every suffix of the key paired with every suffix of the value; deleting removes the pairs of exactly that key with every suffix of the value for that id only; neither touches any other pair. A search key=value reports, each once, exactly the ids related to a pair of words that the two patterns denote (abc and *abc denote the word abc; abc* and *abc* the words that start with abc), however many histories of inserts and deletes preceded it; a query without = or with a range reports nothing. Ids of any reference kind are stored as given.',
      over=['histories', 'inputs'], quant='all histories of inserts, deletes and searches; all keys, values (any non-zero bytes), ids and patterns',
      why='No existing test runs the index; which sets share an id, or which words share a leaf, depends on the history.',
      anchors=A(['src/server/pdc_server_metadata_index.c'], [('create_prefix_index_for_attr_value / delete_prefix_index_for_attr_value', 'src/server/pdc_server_metadata_index.c'), ('metadata_index_search / level_one_art_callback / level_two_art_callback', 'src/server/pdc_server_metadata_index.c'), ('PDC_Server_dart_perform_one_server', 'src/server/pdc_server_metadata_index.c')],
                [('art_key_prefix_tree_g', 'key word -> (value word -> set of ids)', 'src/server/pdc_server_metadata_index.c')]),
      note=NOTE + 'Update of one (word, id) pair and the whole search proved over the contracts of tree, set and strings; the loops over suffixes are decided natively.'),
    dict(id='P14', title='Server storage returns the last value written to every element',
      statement='In either storage layout (one flat file per object, or a list of stored regions), for objects of 1 to 3 dimensions, any element size and with data sieving on or off: after any history of region writes, reading any region returns for every element the bytes written to it last, whatever mixture of overlapping, nested, partial-row or adjacent regions was written before and in between. A write changes no element outside its region and nothing of any other object; it does not change the data buffer it is given, and neither call changes the region it is asked for.',
      over=['histories', 'inputs'], quant='all histories of writes and reads; all dimensions, offsets, sizes, element sizes',
      why='The region layout depends on which earlier regions overlap the request and how; tests write one region and read it back.',
      anchors=A(['src/server/pdc_server_region/pdc_server_region_transfer.c', 'src/server/pdc_server_region/pdc_server_data.c'], [('PDC_Server_transfer_request_io', 'src/server/pdc_server_region/pdc_server_region_transfer.c'), ('PDC_Server_data_write_out', 'src/server/pdc_server_region/pdc_server_data.c'), ('PDC_Server_data_read_from', 'src/server/pdc_server_region/pdc_server_data.c'), ('PDC_Server_posix_write', 'src/server/pdc_server_region/pdc_server_data.c')],
                [('region_storage_head', 'extents of an object in its file', 'src/server/pdc_server_region/pdc_server_data.c')]),
      note=NOTE + 'Both layouts proved with symbolic sizes for 1, 2 and 3 dimensions; only the row loops of the 3-dimensional region layout without sieving are decided natively (bounded).'),
    dict(id='P15', title='Transfer requests complete once and each waiter is answered exactly once',
      statement='The server answers a status question about a transfer request with pending until the transfer has finished, with complete once after that (which forgets the request), and with not found for requests it does not know. A wait for one request, or for any list of requests, is answered exactly once: at once when none of them is pending, otherwise exactly when the last of the pending ones finishes, at the handle that waits, which is then released. Finishing, asking or waiting for one request changes nothing about any other; identifiers are never given out twice; the table is only used under its lock.',
      over=['histories', 'schedules', 'inputs'], quant='all histories of commits, completions, status questions and waits, in any order; all lists of identifiers, including unknown and repeated ones',
      why='Whether a wait is lost or answered twice depends on the order in which transfers finish and clients ask; tests see one order.',
      anchors=A(['src/server/pdc_server_region/pdc_server_region_transfer.c', 'src/server/pdc_server_region/pdc_server_region_request_handler.h'], [('PDC_commit_request / PDC_finish_request / PDC_check_request / PDC_try_finish_request', 'src/server/pdc_server_region/pdc_server_region_transfer.c'), ('transfer_request_wait / transfer_request_wait_all / transfer_request_status handlers', 'src/server/pdc_server_region/pdc_server_region_request_handler.h')],
                [('transfer_request_status_list', 'requests not yet reported complete, with their waiters', 'src/server/pdc_server_region/include/pdc_server_region_transfer.h')]),
      note=NOTE + 'All functions of the table and the three handlers proved; the handlers run under the lock one at a time.'),
    dict(id='P16', title='A handle names its object from registration to its last release',
      statement='Registering an object under a registered kind (container, object, property list, region, transfer request, ...) gives a handle of that kind that was never given out before; an unregistered kind gives none. Looking up a handle finds exactly the object registered under it until it has been released as often as it was registered and referenced; the last release calls the release function of the kind once, with that object, and forgets the handle, unless the release function fails. Looking up, referencing or releasing a handle that is unknown, of another kind or already released is reported as not found and changes nothing. No operation changes the object or the count of any other handle; the number of handles of a kind is exact; clearing a kind releases each of its objects once; looking up a container by name finds the latest one of that name or none.',
      over=['histories', 'inputs'], quant='all histories of registering, finding, referencing, releasing and clearing; all handle values, known or not',
      why='Every client call goes through handles; tests use them correctly, so a stale, doubled or unknown handle is never tried.',
      anchors=A(['src/utils/pdc_interface.c', 'src/commons/utils/include/pdc_linkedlist.h'], [('PDC_register_type / PDC_id_register / PDC_find_id', 'src/utils/pdc_interface.c'), ('PDC_inc_ref / PDC_dec_ref / PDC_id_list_clear', 'src/utils/pdc_interface.c'), ('PDC_LIST_SEARCH / PDC_LIST_REMOVE / PDC_LIST_INSERT_HEAD', 'src/commons/utils/include/pdc_linkedlist.h')],
                [('PDC_id_type_list_g', 'kind -> list of handles with object and count', 'src/utils/include/pdc_interface.h')]),
      note=NOTE + 'Every function of the handle table is under contract; the doubly linked list with its interior back pointers is the real one.'),
    dict(id='P17', title='A transfer moves exactly the bytes of its regions, each to one server',
      statement='Starting and completing a write transfer stores every element of the local region of the user buffer (which has the shape of the object) at the corresponding element of the remote region of the object, and changes neither the user buffer nor any other element; a read transfer puts every element of the remote region into the corresponding place of the user buffer and changes no other byte of it. An object spread over the servers is cut along one dimension: every element belongs to exactly one server, decided by its coordinate, the dimensions of the object and the number of servers alone, and a transfer sends each server exactly the part of the region it owns. This holds for one or several requests started together, waited for one by one or together, or polled. While a request runs it is listed once at its object, and no longer afterwards.',
      over=['inputs', 'histories', 'configurations'], quant='all objects, regions and element sizes in 1 to 3 dimensions, all numbers of servers, all places of local and remote region; histories of transfers',
      why='A byte lands in the wrong place only for regions, shapes and server counts the tests do not use (local offsets that differ from the extents, more servers than elements, ranges cut by a server border).',
      anchors=A(['src/api/pdc_region/pdc_region_transfer.c'], [('static_region_partition', 'src/api/pdc_region/pdc_region_transfer.c'), ('pack_region_buffer / release_region_buffer', 'src/api/pdc_region/pdc_region_transfer.c'), ('PDCregion_transfer_start / start_all / wait / wait_all / status', 'src/api/pdc_region/pdc_region_transfer.c'), ('parse_bulk_data', 'src/server/pdc_server_region/pdc_server_region_transfer.c')],
                [('local_transfer_request_head', 'running requests of an object', 'src/api/pdc_obj/include/pdc_obj_pkg.h'), ('pdc_transfer_request', 'pieces and buffers of a running request', 'src/api/pdc_region/pdc_region_transfer.c')]),
      note=NOTE + 'Packing, unpacking, the cut over the servers and the list of requests are proved for all sizes; messages and waits are exercised natively (bounded).'),
]
NA = {}
