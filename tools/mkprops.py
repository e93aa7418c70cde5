#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json
G='src/graph_impl/graph_map/graph.rs'; N='src/graph_impl/graph_map/node.rs'; ED='src/graph_impl/graph_map/edge.rs'
S='src/graph_impl/static_graph/graph.rs'; EV='src/graph_impl/static_graph/edge_vec.rs'; SI='src/graph_impl/static_graph/static_edge_iter.rs'
MM='src/graph_impl/static_graph/mmap/graph_mmap.rs'; EM='src/graph_impl/static_graph/mmap/edge_vec_mmap.rs'; IM='src/io/mmap.rs'
GG='src/generic/graph.rs'; DT='src/generic/dtype.rs'; SM='src/map/set_map.rs'; VM='src/map/vec_map.rs'; SE='src/io/serde.rs'
CR='src/io/csv/reader.rs'; CC='src/io/csv/record.rs'; CW='src/io/csv/writer.rs'
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p('C01','A mutable graph holds exactly what its mutation history leaves in it',
 "After any sequence of node and edge additions, relabellings and removals, a mutable graph contains exactly the nodes and edges that sequence leaves in place: every membership test, lookup and enumeration, and every return value (was it new, did it exist, what was removed), agrees with an abstract graph that replayed the same sequence. Adding an edge creates its missing end points unlabelled; removing a node removes exactly that node and its incident edges, self-loops included; an operation on an absent node or edge reports so and changes nothing. The reported largest id is the largest id ever added.",
 ['histories','inputs'],'every finite sequence of mutations, directed and undirected, self-loops, re-additions, every id and label type',
 "Tests run about fifteen fixed scripts of at most ten operations on ids 0..6; none removes a node with a self-loop, re-adds after removal, or mixes removals with relabelling.",
 [G,N],[('add_node / add_edge / remove_node / remove_edge keep node_map, in_neighbors and neighbors in step',G),('per-node BTreeMap/BTreeSet adjacency',N)],
 [('node_map','id -> node with adjacency',G),('max_id','largest id ever added',G)],['public MutGraphTrait and GraphTrait calls'])

p('C02','Reported counts equal what enumeration yields',
 "On every graph implementation and after any history, the reported node count and edge count equal the number of distinct nodes and edges that enumerating the graph yields, where an undirected edge counts once and a self-loop counts once. Re-adding or relabelling an existing edge, or a removal that finds nothing, never changes a count.",
 ['histories','inputs'],'every mutation history; every graph obtained by conversion, reordering, construction from adjacency arrays, dump/load, import, CSV loading or graph algebra',
 "Tests assert counts after straight-line scripts that never add the same edge twice, relabel an edge, or contain self-loops in removed nodes or static graphs.",
 [G,S,MM],[('num_of_edges adjusted on add/remove',G),('num_edges derived from adjacency arrays when not given',S),('aux file or derived count when mapping a dump',MM)],
 [('num_of_edges','cached number of edges',G),('num_edges','cached number of edges',S)])

p('C03','Adjacency is consistent seen from either end point',
 "In an undirected graph every edge is visible identically from both end points: existence, label and membership in both neighbour lists; in a directed graph the in-neighbours of a node are exactly the nodes that have it as an out-neighbour. Neighbour lists are ascending and duplicate-free, degrees and in-degrees equal their lengths, and enumerating edges yields every edge exactly once. This holds for every graph implementation and after any history, including labels changed through mutable edge views.",
 ['histories','inputs'],'every history of mutations (including edits through mutable edge references), on hash-map, static and memory-mapped graphs',
 "Tests look at one or two neighbour lists of 3-node graphs; no test writes through a mutable edge of an undirected graph or checks both directions after removals.",
 [G,N,ED,S,EV,SI,MM],[('both directions written on add/remove',G),('in_neighbors set mirrors neighbors',N),('mutable edge view writes both stored copies of an undirected label',ED),('offset/edge arrays and the skip-to-non-less iterator',SI)])

p('C04','Every node and edge carries exactly the label last given to it',
 "Reading the label of any node or edge returns the label most recently given to it, or none if none was given or it was cleared, and the label id reported by every lookup and enumeration denotes that same label in the graph's label table. Labelling one node or edge never changes the label of any other, whichever way the label is set. Label histograms, by label and by label id, count exactly the labels currently carried, each node and each edge once.",
 ['histories','inputs'],'every history of labelled additions, relabellings, clears, removals and writes through mutable views; every implementation, also after static conversion',
 "Tests read back labels of a handful of freshly added items; label reuse, clearing, label-table growth and histograms after mutation are sampled once on one 4-node directed graph.",
 [G,N,ED,GG,S],[('label tables shared by all items; items store ids',G),('default label lookups and counters',GG),('sentinel encoding of "no label"',S)],
 [('node_label_map / edge_label_map','label <-> id tables',G)])

p('C05','Label tables are stable one-to-one maps between items and indices',
 "A label table gives distinct items distinct consecutive indices starting at 0 in order of first insertion; looking up an index and looking up an item are mutually inverse, re-adding an item returns its existing index, and popping removes exactly the most recently indexed item. Collecting, cloning, saving and loading, and converting between the two kinds of table preserve every index. Two tables compare equal exactly when they assign the same indices to the same items, and equal tables hash equally.",
 ['histories','inputs'],'every sequence of adds, pops, clears, conversions and comparisons, with duplicates and any table size; for the list-backed table, built from duplicate-free data',
 "Tests add two strings twice to each table.",
 [SM,VM],[('IndexSet insertion order',SM),('linear-scan vector',VM),('From conversions',SM)])

p('C06','Converting to a static graph preserves the whole graph',
 "Converting a mutable graph whose node ids are 0..n-1 (n may be 0) into a static graph preserves node count, edge count, direction, every node label, every edge and its label, every neighbour and in-neighbour list, and both label tables; items without a label stay without one. If the ids have gaps, every edge, its label and all adjacency of the existing nodes are still preserved.",
 ['inputs','histories'],'every graph and every history that produced it, all id and label types up to their full range (fewer labels than the label type can number)',
 "Three fixed conversions of 4-node graphs; no self-loops, empty graphs, gaps, history with removals, or narrow id/label types.",
 [G,S,EV],[('into_static walks ids in order building offsets, edges, labels and in-edges',G),('maximum label id as "none" marker',S)])

p('C07','Reordering ids yields the same graph under the reported renaming',
 "Reordering returns a graph isomorphic to the original under the reported id mapping: new ids are exactly 0..n-1, new-to-old and old-to-new lookups are mutually inverse, and a node or edge exists or carries a label exactly when its original does. After node reordering, a node with a higher new id never has a smaller total degree, and after label reordering, a higher label id is never carried by fewer items; whatever was not asked to be reordered keeps its ids, and labels keep their meaning. The largest id and all counts agree with the new numbering.",
 ['inputs','configurations'],'every graph (gapped ids, self-loops, unused labels, prior removals, empty) and all eight combinations of the three reorder switches',
 "Two fixed graphs, both with all three switches on and no gaps.",
 [G],[('reorder_id computes SetMaps sorted by degree / frequency',G),('reorder_id_with rewrites nodes, neighbours, in-neighbours and label tables',G)],
 [('ReorderResult','old/new id map and graph',G)])

p('C08','A static graph answers every query from its adjacency arrays',
 "A static graph built from adjacency arrays, with or without node and edge labels, answers every query (membership, neighbours, in-neighbours, degrees, labels, enumerations with their labels, edge positions) exactly as those arrays say, and derives counts that match them when none are given. Removing node labels, edge labels or both removes exactly those labels and leaves everything else unchanged.",
 ['inputs','histories'],'every well-formed pair of offset/edge arrays (nodes without edges, self-loops, hubs, empty graph, full id range), directed and undirected, labelled or not',
 "Tests use one 3-node and one 4-node array pair; the labelled undirected case, self-loops and isolated nodes are never enumerated.",
 [S,EV,SI],[('offset slicing and binary search',EV),('edge iterator skipping lesser neighbours in undirected graphs',SI),('labels aligned with edge positions',S)],
 [('offsets/edges/labels','CSR arrays',EV)])

p('C09','A memory-mapped dump behaves identically to the graph that was dumped',
 "Dumping a static graph to a path prefix and mapping that prefix yields a graph that answers every query exactly as the dumped graph does: direction, counts, nodes, edges, neighbours, in-neighbours, labels and label tables, also for graphs without nodes, edges or labels. This holds whatever dump was previously stored under the same prefix, and dumps under different names in the same directory never affect each other.",
 ['inputs','histories'],'every static graph, every sequence of dumps to the same and to neighbouring prefixes, all id and label widths, files from 0 bytes to many write chunks',
 "Tests dump two 4-node edge vectors to fresh prefixes and never load a whole mapped graph at all.",
 [MM,EM,IM,S,EV],[('dump_mmap writes offsets/edges/labels/aux files',S),('presence of _IN and .labels files decides direction and labelling',MM),('chunked dump and typed mapping',IM)])

p('C10','Binary export and import are lossless and never accept a cut-off file',
 "Importing what was exported yields an equal graph or label table with identical answers to all queries, including label ids, largest id and counts, and it remains fully usable for further mutation. A file cut off at any point is rejected with an error: it never loads as a different or smaller graph, and never crashes the importer. The same goes for a file that is missing or cannot be read to its end; how many bytes each read delivers makes no difference.",
 ['inputs','crash_points','histories'],'every graph of every kind and label type, produced by any history; every proper prefix of the exported bytes; a failure of any read',
 "No test exports or imports anything in binary form.",
 [SE,G,S,SM],[('bincode through buffered file',SE),('derived serialisation of graphs and tables',G)])

p('C11','A save that reports success has stored everything',
 "Every operation that writes a graph to disk (binary export, memory-map dump, CSV writing) either returns success having stored its complete output, or returns an error; if storage fails at any byte of any of its files the result is an error. It never reports success for missing or truncated output and never panics on a storage failure.",
 ['fault_sequences','crash_points'],'every graph; storage exhaustion at every byte offset of every output file, any single write or open failing, unwritable or missing targets, remains of other dumps that cannot be removed',
 "Tests only write to working temporary directories.",
 [SE,IM,CW,S,EV],[('explicit flush before returning',SE),('dump loops over chunks and flushes',IM),('CSV writers flushed per file',CW)])

p('C12','CSV write followed by read reproduces the graph',
 "Writing any graph to CSV and reading it back with the same separator reproduces the same nodes, edges, node labels and edge labels, for any implementation written and regardless of characters in the labels (separators, quotes, line breaks, spaces, non-ASCII); absent labels stay absent. Reading is an ordered replay of rows: it adds to whatever the target graph already holds and later rows relabel earlier ones.",
 ['inputs','configurations'],'every graph with non-empty string or numeric labels, every separator name or single-byte separator that is not a quote or line break, directed and undirected, empty graphs',
 "Tests round-trip random 10-node graphs with labels a/b and 1..3, comma only.",
 [CW,CR,CC],[('header names and Option fields',CC),('separator translation',CR),('records serialised per node/edge',CW)])

p('C13','CSV reading loads every well-formed row and skips only malformed ones',
 "Reading CSV input adds exactly the nodes and edges of the rows whose ids parse, in order, and skips exactly the rows that cannot be parsed (bad or out-of-range ids, missing end points, invalid encoding, wrong field count when lengths must agree), without failing or losing neighbouring rows. A label field that is missing, empty or not a value of the label type means no label, with and without a header row, and with headers the column order is irrelevant. The streaming row iterators yield exactly the rows that reading would add; a file that is missing or cannot be read to its end is an error, never a shorter file.",
 ['inputs','configurations'],'every mixture of good and bad rows, with/without headers, flexible or fixed row lengths, every separator, all id and label types',
 "Tests read back only files this library wrote itself, always with headers and flexible rows, never a malformed row.",
 [CR,CC],[('per-row error is logged and skipped',CR),('hand-written record visitors for sequences and maps',CC)])

p('C14','Breadth-first search visits every node once, in breadth-first order',
 "A breadth-first traversal starts at the requested node (or some node if none is requested), yields every node of the graph exactly once, then ends; after exhausting everything reachable it continues from a not yet visited node. Within each such run nodes come in valid breadth-first order: in the order in which their first visited predecessor was visited, hence by non-decreasing distance. A start node that does not exist is rejected.",
 ['inputs','histories'],'every graph of every implementation, directed or not, with self-loops, gaps left by removals and many components, every start node',
 "Tests traverse paths and pairs of at most four nodes.",
 ['src/algorithm/bfs.rs'],[('queue and not-yet-discovered bit set',"src/algorithm/bfs.rs")],[('discovered','bit set of undiscovered ids','src/algorithm/bfs.rs')])

p('C15','Depth-first search visits every node once, in depth-first order',
 "A depth-first traversal starts at the requested node (or some node if none is requested), yields every node of the graph exactly once, then ends; after exhausting everything reachable it continues from a not yet visited node. Within each such run the order is a valid depth-first order: the next node is always an unvisited neighbour of the most recently visited node that still has one. Resetting a traversal makes it visit every node again; a start node that does not exist is rejected.",
 ['inputs','histories'],'every graph of every implementation, directed or not, with self-loops, cross edges, gaps and many components, every start node, resets at any point',
 "Tests traverse paths and pairs of at most four nodes, on which any stack order is depth-first.",
 ['src/algorithm/dfs.rs'],[('stack and not-yet-visited bit set','src/algorithm/dfs.rs')])

p('C16','Connected components partition the nodes exactly by reachability',
 "Component detection puts two nodes in the same component exactly when a path connects them ignoring edge direction; every node, isolated ones included, belongs to exactly one component, and the component count, membership test, representative lookup and member listing all agree with that partition. Feeding further edges or further graphs to a detector merges exactly the components they connect, in any order, and a reset forgets everything.",
 ['inputs','histories'],'every graph of every implementation; every order of incremental edges, queries interleaved anywhere, resets',
 "Tests use two-edge graphs without isolated nodes, deep parent chains or incremental edges.",
 ['src/algorithm/conn_comp.rs'],[('union by root with path halving on lookups','src/algorithm/conn_comp.rs')],[('parent_ref','node -> parent','src/algorithm/conn_comp.rs'),('count','number of components','src/algorithm/conn_comp.rs')])

p('C17','Connected subgraphs split a graph exactly and lose nothing',
 "Splitting a graph into connected subgraphs yields one non-empty graph per component, of the same direction, such that every node and every edge of the original appears in exactly one of them with its label unchanged, isolated nodes included, and nothing else appears. Each returned graph is connected ignoring direction, and no edge joins two of them.",
 ['inputs'],'every graph of every implementation, labelled or not, with isolated nodes, self-loops and any number of components',
 "Tests split 4-node two-edge graphs; no isolated node, self-loop or component larger than two nodes.",
 ['src/algorithm/conn_subgraphs.rs','src/algorithm/conn_comp.rs'],[('root -> subgraph index','src/algorithm/conn_subgraphs.rs')])

p('C18','Graph union contains exactly what either operand contains',
 "The union of two graphs of the same direction contains exactly the nodes and edges present in either, its counts say so, and every item carries the label it has in the second operand if present there and otherwise the label it has in the first. The function form and every operator form (borrowed, boxed, typed) agree, the operands are left unchanged when borrowed, and copying a boxed general graph yields an equal, independent graph.",
 ['inputs'],'every pair of graphs, overlapping arbitrarily, any mix of implementations, labels conflicting or absent on either side, empty operands',
 "Tests unite disjoint 2-edge graphs, so overlap, label conflicts and count effects are never exercised.",
 ['src/algorithm/graph_union.rs',GG],[('add all of first, then all of second','src/algorithm/graph_union.rs'),('Clone of boxed graphs via union',GG)])

p('C19','Graph difference removes exactly the second operand',
 "The difference of two graphs of the same direction contains exactly the nodes of the first that are not nodes of the second, and exactly the edges of the first between such nodes, all with the labels they have in the first; its counts say so. The function form and every operator form (borrowed, boxed, typed) agree, and borrowed operands are left unchanged.",
 ['inputs'],'every pair of graphs, overlapping arbitrarily, self-loops, any mix of implementations, empty operands',
 "Tests subtract a component that is disjoint from the remainder; no cut edges, no self-loops.",
 ['src/algorithm/graph_minus.rs',G],[('copy first, remove nodes then edges of second','src/algorithm/graph_minus.rs'),('node removal detaches incident edges',G)])

p('C20','Equality means same content, and equal graphs hash equally',
 "Two graphs of the same kind compare equal exactly when they have the same nodes, edges and labels, regardless of insertion order, of label numbering and of how each was built; equality is reflexive, symmetric and transitive. Boxed general graphs also compare equal across implementations exactly when direction and content agree. Equal graphs have equal hashes, and a clone equals its original but does not change with it.",
 ['inputs','histories'],'every pair of graphs, near-misses differing in one node, edge, label or direction, and every history reaching the same content',
 "Tests only assert that some graph equals its clone or an identical rebuild; no test asserts that different graphs differ in both directions.",
 [G,S,GG],[('PartialEq/Hash of hash-map and static graphs',G),('equal() across implementations',GG),('PartialEq of static graphs',S)])

p('C21','Generators produce exactly the requested class of graph',
 "Generated graphs have exactly the nodes 0..n-1, no self-loops, labels drawn only from the given lists (none if a list is empty), and: none, all, or exactly m distinct edges for the empty, complete and fixed-size random generators. The probabilistic generator includes each possible edge independently with probability p (none at 0, all at 1); random choices of edges and labels cover all alternatives without visible bias. Impossible parameters (p outside 0..1, more edges than possible) are rejected.",
 ['inputs','configurations'],'every n, m, p and label list, directed and undirected, all id types within their range',
 "Tests check n=100 at p=0, p=1 and m=1000 unlabelled; intermediate p, labels, extremes of m and parameter rejection are untested.",
 ['src/graph_gen/general.rs','src/graph_gen/random.rs','src/graph_gen/helper.rs'],[('complete_edge_pairs enumeration','src/graph_gen/helper.rs'),('reservoir sampling of m pairs','src/graph_gen/random.rs')])

p('C22','Loading an LDBC directory yields exactly the relations it contains',
 "Loading an LDBC social-network directory yields one node per distinct (entity type, id) occurring in the recognised files, with dense ids from 0, labelled by its entity type (or, for organisations and places listed in their own files, the type column of that file), and one edge per distinct pair of nodes that relation rows join, in the file's direction when loading a directed graph and labelled with the name of a relation that joins the pair. The result does not depend on how rows are split over several files of the same relation, on the order in which the directory lists files, or on unrelated files; a file that cannot be read to its end is refused, never taken for a shorter one.",
 ['inputs','configurations'],'every directory of well-formed files of the supported relations, any split into numbered parts, any subset of files present, foreign files present, directed and undirected',
 "Nothing tests the LDBC loader; the test suite does not even compile it.",
 ['src/io/ldbc/scheme.rs','src/io/ldbc/node.rs','src/io/ldbc/relation.rs'],[('table of file-name patterns, entity types and columns','src/io/ldbc/scheme.rs'),('type-qualified string id -> dense id map','src/io/ldbc/relation.rs')])

p('C23','Memory-mapped data is never read outside the mapped file',
 "No safe call on memory-mapped data, whatever the content or size of the files (empty, cut off, extended, corrupted, not a multiple of the item size) and whatever indices or ranges are asked for, ever exposes or reads memory outside the file's bytes: it returns data from the file, reports an error or panics. Writing arrays out as bytes and mapping them back returns the identical values.",
 ['inputs','fault_sequences'],'every file content and length, item type, index and range, any corruption of a valid dump',
 "Tests map two intact files and index them through one accessor; a test cannot see an out-of-bounds read that happens to return plausible bytes.",
 [IM,EM,MM,EV],[('raw-pointer slices over the mapping bounded by the item count',IM),('bounds-checked offset slicing above it',EV)],
 [('len','number of items in the mapping',IM)])

p('C24','Any number of threads may read one graph at the same time',
 "Queries and traversals that only read a graph may run concurrently on one shared graph (hash-map, static or memory-mapped) from any number of threads: every thread gets exactly the answers a single thread gets, and no data race occurs. Reading never changes what later reads return.",
 ['schedules','inputs'],'every interleaving of read-only queries from several threads on every implementation',
 "Tests never touch a graph from more than one thread.",
 [G,S,MM,GG],[('immutable structures without interior mutability; Iter and Cow borrow them',GG)])

p('C25','Questions about absent nodes and edges have a definite negative answer',
 "On every implementation, asking whether an absent node or edge exists, looking it up, or asking for its label, with any ids whatsoever in either position, answers no or nothing and never panics, and neither does looking up, mutating or removing an absent item of a mutable graph or querying an absent node in a component detector. Enumerations, histograms, the largest id and counts of an empty graph are empty, none and zero. Degree or neighbour requests for a node outside the graph are refused, never answered with another node's data.",
 ['inputs'],'every graph including empty ones, every id of the id type in every argument position, every implementation',
 "Tests probe two or three absent ids, always just past the end, never as the first end point of a mapped graph and never on an empty graph.",
 [G,S,MM,EV,'src/algorithm/conn_comp.rs'],[('has_node/has_edge guards before indexing',S),('range check in offset lookup',EV),('None variants of node/edge results',G)])

p('C26','Behaviour does not depend on the chosen integer widths',
 "The same history or data gives the same observable graph whichever supported integer types number its nodes and labels, as long as all ids fit: membership, labels, adjacency, enumeration, conversion, reordering, dumping, traversal and components agree. The full id range is usable: a graph containing every id of a narrow type, its maximum included, can be built, enumerated, converted, dumped, traversed and compared.",
 ['configurations','inputs'],'all pairs of supported id types and label-id types, every history whose ids fit, graphs filling an 8-bit id space completely',
 "Tests use only the default 32-bit ids; no boundary id is ever used.",
 [DT,G,SI,S],[('IdType conversions',DT),('id arithmetic in conversion and static iteration',SI)])

SN='src/graph_impl/static_graph/node.rs'; GED='src/generic/edge.rs'; GN='src/generic/node.rs'
p('C27','Nodes and edges handed out by queries are values',
 "Two node or edge records of the same kind (borrowed, mutable, removed, static, copied or made by hand) compare equal exactly when both stand for an absent item or agree in id or end points, in label id and, for borrowed records of a mutable graph's nodes, in adjacency and its labels; equal node records hash equally. A record says whether it stands for an absent item and returns exactly the id, end points and label id it was made with. A stand-alone node record keeps exactly the neighbours, in-neighbours and labels given to it through any sequence of additions, removals and relabellings, and through export and import.",
 ['histories','inputs'],'all pairs of records handed out by any graphs after any history, all id and label-id types including their largest values, every sequence of calls on a node record',
 "Tests compare a few records of one tiny graph and never a record with one that differs in a single part.",
 [ED,N,SN,GED,GN],[('equality of mutable edge records',ED),('equality and adjacency of node records',N),('wrapping of absent items',GED)])

json_lines=[json.dumps(x,ensure_ascii=True) for x in P]
open(__file__.rsplit('/tools/',1)[0]+'/properties.jsonl','w').write('\n'.join(json_lines)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.](?:\s|$)',x['statement'])); assert n<=3,(x['id'],n)
print(len(P),'properties')
