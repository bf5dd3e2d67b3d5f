#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(obs), hook_needed=hook)))
H='src/hnsw.rs'; IO='src/hnswio.rs'; DM='src/datamap.rs'; FL='src/flatten.rs'; FI='src/filter.rs'; LE='src/libext.rs'; AP='src/api.rs'

p('S01','Search answers are bounded, sorted, distinct real points with exact distances',
  'A search for k neighbours returns at most k answers (none from an empty index, at least one from a non-empty index when k is at least 1), in non-decreasing distance order, with no point reported twice. Every answer names a point that was inserted, with its own identifier, and the reported distance is exactly what the distance function gives between the query and that point. A search width below k counts as k.',
  ['inputs','histories','configurations'],'every sequence of inserted points and levels, every distance function, query, k and ef',
  'The tests use random vectors with L2 or L1 and a handful of parameters, and check recall by eye; nothing covers ties, arbitrary distance orders, k larger than the index, ef smaller than k or unusual level sequences.',
  [H],[('best-first layer search with bounded result heap','src/hnsw.rs: search_layer'),('descent and result extraction','src/hnsw.rs: search_filter')],
  [('return_points','current best candidates, a max-heap cut to ef','src/hnsw.rs: search_layer')],['return value of search'])
p('S02','Filtered search returns only accepted identifiers',
  'When a search is given a filter (a sorted list of identifiers, a closure or any implementation of the filter trait), every answer has an identifier the filter accepts, and the answers obey the same bounds, order, distinctness and exact-distance rules as an unfiltered search. When no indexed point is accepted the answer is empty.',
  ['inputs','histories','configurations'],'every index history, every subset of identifiers accepted by the filter, every distance function, query, k and ef',
  'The filter tests use one or two fixed filters over random data, where the entry point of the search happens to be accepted or enough accepted points exist; an entry point that is rejected, or a filter that rejects everything, is not sampled.',
  [H,FI],[('filter evaluated before a candidate enters the results','src/hnsw.rs: search_layer'),('membership by binary search','src/filter.rs')],
  [],['return value of search_filter, search_possible_filter'])
p('S03','Search is exact while the index fits in one base-layer neighbourhood',
  'In an index whose points are all on the base layer and number at most twice the maximum number of connections plus one, built with a construction width and searched with a search width of at least the number of points, a search for k neighbours returns exactly the min(k, n) nearest points. With a filter it returns exactly the nearest accepted points.',
  ['inputs','histories','configurations'],'every insertion order, distance function (ties included), query, k and filter, for indexes within the stated size',
  'Tests only look at recall averages on random data; a lost link or a wrongly stopped search lowers recall slightly without failing them.',
  [H],[('all candidates are kept as neighbours while they fit','src/hnsw.rs: select_neighbours'),('reverse links','src/hnsw.rs: reverse_update_neighborhood_simple')],
  [],['return value of search and search_filter'])
p('G01','The neighbour lists form a well-formed bounded graph',
  'After any sequence of insertions every neighbour list is sorted by distance, contains no point twice and never the point itself, refers only to points of the index, and stores exactly the distance between the two points. A list has at most twice the maximum number of connections on the base layer and at most the maximum number of connections on each upper layer.',
  ['inputs','histories','configurations'],'every sequence of insertions, level sequence, distance function and setting of keep-pruned and extend-candidates',
  'No test looks at the neighbour lists; an overfull, unsorted or self-referring list only degrades recall or memory use.',
  [H],[('neighbour selection','src/hnsw.rs: select_neighbours'),('reverse update, sort and shrink','src/hnsw.rs: reverse_update_neighborhood_simple')],
  [('neighbours','per layer neighbour lists of a point','src/hnsw.rs: Point')],['get_neighborhood_id of each point'])
p('G02','A new point is linked to its nearest candidates by the diversity rule',
  'When a point is inserted and the candidates reachable on its layer all fit in the construction width, its neighbours on that layer contain the nearest candidate, and contain every candidate if they fit in the allowed number of connections. When candidates exceed that number, a candidate is kept exactly when it is closer to the new point than to every already kept, nearer one, until the allowed number is reached; with keep-pruned set, rejected candidates fill the remaining places nearest first.',
  ['inputs','histories','configurations'],'every distance function and insertion order within the bounds, with and without keep-pruned',
  'Selection quality is invisible to the tests: any subset of candidates yields a working index with somewhat different recall.',
  [H],[('neighbour selection heuristic','src/hnsw.rs: select_neighbours'),('candidate collection','src/hnsw.rs: search_layer')],
  [],['get_neighborhood_id of the inserted point'])
p('R01','Every inserted point is registered exactly once and can be read back',
  'After any sequence of insertions the number of points equals the number of insertions; iterating over the index yields each inserted point exactly once with the identifier and the exact data given; per-layer counts and per-layer iteration agree with it; reading a point by its internal id returns its data, and an id that was never issued returns nothing. The reported maximum level is the highest level of any point, and iterating over an empty index yields nothing.',
  ['inputs','histories','configurations'],'every sequence of insertions, level sequence and data content, including the empty sequence; every internal id',
  'Tests iterate over a few random indexes; the empty index, empty intermediate layers and ids out of range are not exercised.',
  [H],[('point generation and rank assignment','src/hnsw.rs: generate_new_point'),('iterators','src/hnsw.rs: IterPoint, IterPointLayer'),('lookup','src/hnsw.rs: get_point_data')],
  [('points_by_layer','registry of all points','src/hnsw.rs: PointIndexation')],['iterators, get_nb_point, get_layer_nb_point, get_point_data, get_max_level_observed'])
p('L01','Sampled levels stay within the layer limit for every draw and scale',
  'For every random draw and every accepted configuration (number of connections, number of layers up to 16, level-scale modification), inserting a point gives it a level strictly below the configured number of layers, and never fails; the level is the integer part of minus the logarithm of the draw times the level scale whenever that is below the number of layers. A level-scale modification multiplies the scale by the factor clamped to the interval from 0.2 to 1.',
  ['inputs','configurations'],'every value of the uniform draw and its logarithm including zero and the extremes, every scale factor including NaN-free extremes',
  'The level law makes high levels exponentially rare, so the branch that bounds a level is practically never reached by a random test.',
  [H],[('level generation','src/hnsw.rs: LayerGenerator::generate'),('scale modification','src/hnsw.rs: modify_level_scale')],
  [],['level of inserted points, get_level_scale'])
p('P01','Configuration values are reported and dumped as given, bad ones refused',
  'For every accepted configuration, the index reports the maximum number of connections, construction width and number of layers it was created with (layers capped at 16). A maximum number of connections that is not strictly below 256 is refused at creation.',
  ['inputs','configurations'],'every value of each parameter',
  'Tests use two or three ordinary parameter sets; the limits where a narrower integer representation wraps are not tried.',
  [H],[('argument checks','src/hnsw.rs: Hnsw::new'),('accessors','src/hnsw.rs: get_max_nb_connection and others')],
  [],['accessors after creation'])
p('D01','Dump then reload restores the same index',
  'Dumping an index and reloading it with the same distance and data type yields an index with the same points, identifiers, levels and bit-identical data, the same neighbour lists with bit-identical distances, the same entry point, number of points, maximum number of connections, construction width and level scale. Searches on both give the same answers, and dumping the reloaded index again produces files that reload to the same index.',
  ['inputs','histories','configurations'],'every index history, data content, identifier value and parameter set within the bounds',
  'The reload tests compare a few random indexes field by field loosely; identifiers near the integer limits, special float values, empty layers and level scale are not compared.',
  [IO,AP],[('dump','src/hnswio.rs: dump_point, Description::dump'),('reload','src/hnswio.rs: load_point_indexation')],
  [],['file_dump followed by HnswIo::load_hnsw'])
p('D02','Points of different lengths survive dump and reload',
  'When the indexed vectors do not all have the same length (as with the Levenshtein distance), dumping and reloading restores each vector with its own length and content. Reloading never reads memory outside the stored vector.',
  ['inputs','histories'],'every combination of vector lengths and contents within the bounds',
  'The Levenshtein test only searches in memory; no test reloads an index with vectors of different lengths.',
  [IO],[('per-record length','src/hnswio.rs: dump_point, load_point_data')],[],['get_v of reloaded points'])
p('D03','A memory-mapped reload equals an in-memory reload',
  'Reloading with memory-mapped data, with any threshold splitting points between mapped and in-memory storage, gives an index with the same points, data, links and search answers as reloading everything in memory.',
  ['inputs','histories','configurations'],'every index history, data content and threshold within the bounds',
  'The mmap test reloads one random index with one threshold and compares a few answers.',
  [IO,DM],[('threshold decision per point','src/hnswio.rs: load_point_indexation'),('mapped slices','src/datamap.rs: get_data')],[],['reloaded index'])
p('D04','The data map returns exactly the dumped data for exactly the dumped ids',
  'A data map opened on a dump lists each dumped identifier once, returns for each exactly the vector that was dumped under it, and returns nothing for any other identifier. It is refused for a data type other than the dumped one.',
  ['inputs','histories'],'every set of dumped points, identifier and lookup within the bounds',
  'The tests look up a few sequential identifiers of random f32 data.',
  [DM],[('record scan','src/datamap.rs: from_hnswdump'),('lookup','src/datamap.rs: get_data, get_dataid_iter')],[],['DataMap accessors'])
p('D05','A graph-only reload preserves the graph without the data',
  'Reloading a dump without data (with the no-data type) gives an index with the same identifiers, levels, neighbour lists and distances as the dumped one, and empty vectors; flattening it gives the same neighbourhoods as flattening the original.',
  ['inputs','histories'],'every index history within the bounds',
  'One random index is tested for identical flattened neighbours of a few points.',
  [IO,FL],[('type-based skip of data','src/hnswio.rs: load_point_data')],[],['reloaded graph, FlatNeighborhood'])
p('D06','A truncated dump is reported as an error',
  'If the graph file or the data file of a dump is cut at any byte before its end, as after a crash during the dump, reloading (with or without memory mapping) returns an error: it does not panic, abort, exit the process or return an index.',
  ['crash_points','inputs'],'every truncation point of each file',
  'No test reloads a damaged file.',
  [IO,DM],[('read errors propagated','src/hnswio.rs: load_description, load_point_graph, load_point_data')],[],['HnswIo::load_hnsw, load_description'])
p('D07','Reading a description never crashes and inverts writing it',
  'Reading the description at the head of a graph file from arbitrary bytes returns either a description or an error and never panics or aborts; names longer than the documented 256 bytes are refused. Reading the description of a dump gives back the values of the dumped index, through the Rust and the C interface.',
  ['inputs'],'every byte content of the description within the length bound; every parameter set',
  'Only well-formed descriptions written by the same build are ever read.',
  [IO,LE],[('parsing','src/hnswio.rs: load_description'),('C access','src/libext.rs: load_hnsw_description')],[],['load_description, load_hnsw_description'])
p('D08','A corrupted dump never crashes a reload',
  'If any single byte of a graph or data file is changed, reloading returns an error or an index, and never panics, aborts, exits the process or touches memory it does not own.',
  ['inputs','fault_sequences'],'every position and every value of one changed byte, in small dumps',
  'No test reloads a damaged file; the decoding uses unchecked lengths and indexes read from the file.',
  [IO],[('magic numbers, lengths and indexes checked','src/hnswio.rs: load_point_indexation, load_point_graph, load_point_data')],[],['HnswIo::load_hnsw'])
p('D09','Reload refuses a mismatched distance or data type',
  'Reloading a dump with a distance type of another name (generic arguments included) or with another element type than the dumped one returns an error and not an index, whichever reload call is used, except that the no-data type is always accepted. load_hnsw ignores the module path of the distance, by design.',
  ['inputs','configurations'],'every pair of dumped and requested distance and type names within the bounds',
  'The tests only reload with the matching types.',
  [IO],[('name comparison','src/hnswio.rs: load_hnsw, load_hnsw_with_dist, load_point_indexation')],[],['HnswIo::load_hnsw, load_hnsw_with_dist'])
p('D10','Dumping never overwrites files that a memory-mapped index may use',
  'Dumping an index that was reloaded by load_hnsw leaves every existing dump file with the same base name unchanged, writes a complete dump under the name it returns, and that name reloads to the same index. Dumping an index that was not reloaded writes exactly the requested base name.',
  ['histories','configurations','inputs'],'every set of already existing files and every draw of the name suffix within the bounds',
  'One test dumps a reloaded index once and looks at the result.',
  [IO,AP],[('unique base name','src/hnswio.rs: DumpInit::new'),('overwrite decision','src/api.rs: file_dump')],[],['file_dump return value, directory contents'])
p('D11','A dump that returns success is complete on disk',
  'If a file of a dump cannot be opened the dump returns an error, and if any write made during a dump fails or stores fewer bytes than asked, the dump either completes by writing the rest or returns an error. Whenever it returns success, both files are complete and reload to the dumped index.',
  ['fault_sequences'],'every failing write call and short count, for each small index',
  'No test injects an I/O error.',
  [IO,AP],[('write_all and flush','src/hnswio.rs: dump_point, DumpInit::flush'),('result mapping','src/api.rs: file_dump')],[],['file_dump return value and file contents'])
p('D12','Dumps in the older file formats still reload',
  'A dump in one of the two previous file formats (without level scale; and before that with the length stored in front of each vector) reloads, with any reload call, to the same points, data and links as the same index dumped in the current format, with the default level scale. Dumping it again writes the current format, and the data map opens the later of the two formats and refuses the earlier one.',
  ['inputs','histories'],'every index history and data content within the bounds, written in each older format',
  'The tests only reload what the same build has dumped.',
  [IO,DM],[('format version from the magic number','src/hnswio.rs: load_description'),('decoding of data by version','src/hnswio.rs: load_point_data')],[],['HnswIo::load_hnsw, DataMap::from_hnswdump'])
p('D14','A reload handle can be used again and holds no state of an earlier reload',
  'A reload handle is initialised once: setting the values of one that already has them is refused. Each of the reloads made through one handle gives the index that the files hold at that time, with the options set last, whatever was reloaded before, and dropping the indexes and the handle closes every file and mapping.',
  ['histories','configurations'],'every way to make a handle, options, and sequence of reloads within the bounds',
  'Tests use each handle once.',
  [IO],[('single initialisation','src/hnswio.rs: set_values'),('data map kept by the handle','src/hnswio.rs: load_hnsw')],[],['set_values, load_hnsw, load_hnsw_with_dist'])
p('D13','A reloaded index can be extended like the original',
  'Inserting points in a reloaded index keeps every registry and graph rule of a freshly built index (each point once, bounded, sorted, exact lists), and searches then return sound answers that can include old and new points. Given the same levels and the same settings (a reload switches the extension of candidates on) the insertions make the same links as in the original index.',
  ['histories','inputs'],'every index history, reload and further insertion within the bounds',
  'One test inserts in a reloaded random index and looks at the count only.',
  [IO,H],[('rebuilt registry','src/hnswio.rs: load_point_indexation')],[],['index after reload and insertion'])
p('C01','Concurrent insertions lose no point and keep the graph rules',
  'When several threads insert points at the same time, in any interleaving, every insertion terminates, every point is registered exactly once, the reported maximum level is the highest level inserted, and every point other than the first is linked to at least one other point when a point exists on its layer before it. The graph rules (bounded, sorted, distinct, exact distances) hold at the end. When all points are on the base layer and number at most twice the maximum number of connections plus one, a search as wide as the index then finds every point.',
  ['schedules','inputs','histories'],'every interleaving of the lock operations of two inserting threads within the context bound, starting from an empty or a small index, for every level assignment',
  'A test run exercises a few unforced interleavings of thousands of insertions and would not notice a point that is stored but unlinked.',
  [H],[('registry lock','src/hnsw.rs: generate_new_point'),('entry point lock','src/hnsw.rs: check_entry_point'),('per point locks','src/hnsw.rs: reverse_update_neighborhood_simple')],
  [('entry_point','top point from which searches start','src/hnsw.rs: PointIndexation')],['index after all threads end'])
p('C02','Searching during insertions is sound and never blocks for ever',
  'When searches, filtered or not, or iterations over the index run while another thread inserts, in any interleaving, every call terminates, nothing panics, and each answer obeys the soundness rules with respect to points inserted before or during the call. While the points inserted before are all on the base layer and number at most twice the maximum number of connections, a search as wide as the index finds each of them that its filter accepts.',
  ['schedules','inputs'],'every interleaving of the lock operations of one inserting thread with one searching or iterating thread within the context bound',
  'No test searches or iterates while inserting.',
  [H],[('reader-writer locks','src/hnsw.rs: search_layer, IterPoint')],[],['results of both threads'])
p('C03','A dump made during insertions is a complete dump',
  'When an index is dumped while another thread inserts, in any interleaving, both end. If the dump returns success its files reload, with and without the data map, to an index that holds every point inserted before the dump began and at most those inserted when it ended, each once and with its own data, with links only among those points and exact distances.',
  ['schedules','inputs'],'every interleaving of the lock operations of one inserting thread with a dumping thread within the context bound',
  'No test dumps while inserting.',
  [IO,H],[('registry locked while points are counted and written','src/hnswio.rs: dump'),('registration of points','src/hnsw.rs: generate_new_point')],[],['files after both threads end'])
p('C04','Parallel search equals sequential search, in request order',
  'A parallel search returns one answer list per request, in the order of the requests, each equal to what a single search for that request returns; an empty request list gives an empty answer.',
  ['inputs','histories'],'every index, list of queries (repeated ones included), k and ef within the bounds; completion order of requests',
  'The parallel tests compare recall, not the pairing of answers with requests.',
  [H],[('request numbering and reordering','src/hnsw.rs: parallel_search')],[],['return value of parallel_search'])
p('C05','Parallel insertion inserts exactly the given points',
  'A parallel insertion, by vectors or by slices, registers each given point exactly once with its own identifier and data, and leaves an index that obeys the graph rules and in which, under the same size condition as for concurrent insertions, a wide search finds every point; inserting an empty batch changes nothing.',
  ['inputs','histories'],'every batch of points and identifiers, levels and distance function within the bounds',
  'Tests insert random batches and check the count.',
  [H],[('work distribution','src/hnsw.rs: parallel_insert, parallel_insert_slice')],[],['index after parallel_insert'])
p('F01','Flattening keeps every point with all its neighbours in order',
  'Flattening an index gives, for every point of the index, the neighbours of all its layers sorted by distance with identifiers and distances unchanged, and nothing for an unknown identifier. Flattening an empty index gives an empty result.',
  ['inputs','histories'],'every index history within the bounds, the empty index included',
  'One test compares flattened neighbours of a random index before and after reload, so an error common to both is invisible.',
  [FL],[('flattening','src/flatten.rs: flatten_point, From for FlatNeighborhood')],[],['FlatNeighborhood::get_neighbours'])
p('O01','Neighbour ordering follows distance as a consistent total order',
  'Comparing two answers, or two points paired with distances, orders them exactly as their distances, equality included, for every non-NaN distance; the partial and total comparisons, equality and sorting agree, and a NaN distance is never silently ordered by the total comparison.',
  ['inputs'],'every pair and triple of 32-bit float distances, signed zeros, infinities and NaN included',
  'Order laws are never tested; sorting with an inconsistent order only misbehaves for special values.',
  [FL,H],[('comparison implementations','src/flatten.rs: Ord for Neighbour; src/hnsw.rs: PartialOrd for PointIdWithOrder')],[],['cmp, partial_cmp, eq'])
p('I01','List and closure filters accept exactly the listed identifiers',
  'A sorted list used as a filter accepts an identifier exactly when the list contains it, and a closure used as a filter accepts exactly when the closure returns true.',
  ['inputs'],'every sorted list up to the bound and every identifier',
  'Tests use two fixed lists.',
  [FI],[('binary search','src/filter.rs')],[],['hnsw_filter'])
p('A01','The C interface gives the same results as the Rust interface',
  'Building, searching, parallel inserting and searching, dumping and reloading through the C functions give the same identifiers and distances in the same order as the corresponding Rust calls on the same data. A creation call with an unknown distance name and a failed reload return a null pointer, a failed dump returns -1; answers report their exact number of neighbours.',
  ['inputs','histories','configurations'],'every data content, identifier, distance callback, k and ef within the bounds; every distance name of bounded length',
  'The C functions have no test at all.',
  [LE,AP],[('exported functions','src/libext.rs')],[],['returned C structures'])
p('M01','Dropping an index releases all memory it allocated',
  'After any sequence of insertions and searches, including a dump and reload, dropping the index frees every allocation made for its points and links, without freeing anything twice or using it afterwards.',
  ['histories','inputs'],'every index history and level sequence within the bounds',
  'Points refer to each other in cycles of shared references; a leak or a missed layer does not fail any test.',
  [H],[('cycle breaking','src/hnsw.rs: Drop for PointIndexation')],[],['live allocations after drop'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        assert x['statement'].count('. ')<=2,(x['id'])
        f.write(json.dumps(x)+'\n')
print(len(P))
