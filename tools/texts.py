"""What each property says; tools/mk.py turns this into properties.jsonl and MANIFEST.json."""
G = "rust-src/src/gridstore/"


def at(w):
    return w if w.startswith(("native/", "test_utils/")) else G + w


def P(id, title, statement, over, text, why, mech, observe, hook=None, state=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": sorted({at(w).split(":")[0] for _, w in mech}),
            "state": [{"name": n, "meaning": m, "where": at(w)} for n, m, w in state],
            "mechanism": [{"name": n, "where": at(w)} for n, w in mech],
            "observe_at": observe, "hook_needed": hook,
        },
    }


TEXTS = [
P("C01", "A phrase record reads back exactly as it was written",
  "For every record (groups of relevance/score, each with tiles, each with an id list) the bytes produced by the record writer, "
  "read by the record reader, give the same groups, tiles and ids in the same order. This holds whatever the values, the list "
  "lengths and the place in the record at which each list ends up, including every width a packed pointer can take.",
  ["inputs"], "every record: all byte values, list lengths across the length-prefix boundaries, all pointer widths",
  "The one stable test writes one record and looks at it; no test varies values, lengths or addresses.",
  [("Writer and Reader", "gridstore_format.rs:Writer"), ("variable-length integers", "gridstore_format.rs:write_varint")],
  ["gridstore_format read_var_vec_raw / read_uniform_vec_raw / read_fixed_vec_raw on the writer's bytes"],
  "cfg(carmen_verif) verif_hooks::format re-exports the private module"),
P("C02", "A packed tile list keeps every tile and position at any width",
  "A tile packed at its minimal width (5 to 8 bytes) reads back with the same coordinate and the same id list, the width is the "
  "smallest that holds it, and a list of tiles is packed at one width that holds all of them. Reading a list by position and "
  "iterating over it give the same tiles, with the list's true length.",
  ["inputs"], "every coordinate and pointer up to 2^32, lists that mix pointers of different widths around every byte boundary",
  "No test reaches pointers above two bytes or lists mixing widths; they need records of 64 kB and more.",
  [("Coord packing", "gridstore_format.rs:Coord"), ("UniformVec get and iteration", "gridstore_format.rs:UniformVec")],
  ["UniformVec::get, len and iteration over lists made by write_uniform_vec"],
  "cfg(carmen_verif) verif_hooks::format re-exports the private module"),
P("C03", "Keys are injective, ordered by phrase, and enumerate as inserted",
  "Two keys have the same stored form only when they have the same phrase, language set and kind; ordinary phrases sort before "
  "bins, and by phrase id within a kind. Looking up a key succeeds exactly for inserted keys, enumeration lists exactly the "
  "inserted keys, and matching a stored key against a request agrees with the definition over phrase and languages.",
  ["inputs"], "every phrase id in 32 bits and every language set in 128 bits, both kinds",
  "Tests use a handful of small ids and languages; the variable-length language suffix makes collisions value-dependent.",
  [("GridKey::write_to", "common.rs:GridKey::write_to"), ("MatchKey", "common.rs:MatchKey"), ("keys and iter", "store.rs:GridStore::keys")],
  ["GridKey::write_to, MatchKey::matches_key / matches_language / write_start_to, GridStore::get, keys, iter"]),
P("C04", "A request returns the entries of exactly the phrases it names",
  "An exact request returns all entries of that phrase and of no other; a range request returns all entries of the phrases from "
  "its start up to but excluding its end and of no other. This holds for every phrase id, including the largest, and for every "
  "language set a phrase is stored under.",
  ["inputs"], "every set of stored phrase ids (3 arbitrary; 32 around encoding boundaries) and every request",
  "Tests ask for a few small ids; the boundaries of the 32-bit id space and of its byte encoding are never tried.",
  [("streaming_get_matching", "store.rs:GridStore::streaming_get_matching"), ("MatchKey::write_start_to", "common.rs:MatchKey::write_start_to")],
  ["GridStore::streaming_get_matching"]),
P("C05", "Language decides demotion, never presence",
  "Every entry of a requested phrase is returned whatever its language set; it is flagged as matching exactly when its language "
  "set is the all-languages set or intersects the requested one. Without a proximity point a matching entry keeps its relevance "
  "and a non-matching one has 0.96 times it.",
  ["inputs"], "every pair of stored language sets and every requested set in 128 bits, with and without bins",
  "Tests use a few one-byte language sets; the stored form drops leading zero bytes, so errors depend on the value.",
  [("matches_language", "common.rs:MatchKey::matches_language"), ("demotion", "store.rs:decode_matching_value")],
  ["MatchEntry.matches_language and grid_entry.relev from streaming_get_matching"]),
P("C06", "Stored entries come back once each, in descending order",
  "After building, looking up a key returns every entry stored under it exactly once (duplicates merged), with score truncated to "
  "4 bits and id to 24, and nothing else. Entries come in strictly descending order of relevance, score, z-order tile, id and "
  "hash, and other keys' entries do not appear.",
  ["inputs"], "every list of up to 3 arbitrary entries; structured lists of 16 to 19 entries with one arbitrary entry; 3 arbitrary keys",
  "Tests check a few fixed lists; shared tiles, shared id lists, truncation and ties depend on values.",
  [("get_encoded_value", "builder.rs:get_encoded_value"), ("extend_entries", "builder.rs:extend_entries"), ("decode_value", "store.rs:decode_value")],
  ["GridStoreBuilder::insert / finish then GridStore::get, iter, keys"]),
P("C07", "The stored data is what the history of writes says",
  "After any sequence of insert (replaces a key's entries), append and compact_append (both add), each key holds exactly the union "
  "its history leaves. The order and grouping in which entries arrive, and which of the adding operations is used, make no "
  "difference to what is stored.",
  ["histories", "inputs"], "every history of up to 3 operations on 2 keys with arbitrary tiles, ids and scores; 4 ways to add the same entries; tiles with up to 8 ids",
  "Tests append once to one key; the interaction of operations on shared tiles and of id lists outgrowing their inline space is not covered.",
  [("insert, append, compact_append", "builder.rs:GridStoreBuilder"), ("extend_entries", "builder.rs:extend_entries")],
  ["GridStoreBuilder operations then GridStore::get"]),
P("C08", "Renumbering moves each phrase to its final id, or fails",
  "Renumbering with a mapping moves every key's entries to the mapped phrase id with its language set and entries unchanged, "
  "losing and inventing nothing. It fails exactly when a phrase lies outside the mapping or two keys would become the same key.",
  ["inputs"], "every mapping of up to 4 targets for up to 4 keys; permutations of 24 with two arbitrary targets",
  "Tests renumber one small fixed mapping.",
  [("renumber", "builder.rs:GridStoreBuilder::renumber")],
  ["GridStoreBuilder::renumber then keys and get"]),
P("C09", "Prefix bins never change what a request returns",
  "A store built with bin boundaries answers every request with the same set of entries, with the same language flags, as a store "
  "built from the same data without them. Bins add no phrase to the store's keys.",
  ["inputs", "configurations"], "every set of 1 to 3 boundaries, 1 to 3 phrases and requests; shared tiles, ids and languages within a bin, with boxes",
  "Tests compare a few fixed ranges on one fixed store; boundary ids and merged duplicates are value-dependent.",
  [("finish groups bins", "builder.rs:GridStoreBuilder::finish"), ("copy_entries", "builder.rs:copy_entries"), ("bin requests", "store.rs:GridStore::streaming_get_matching")],
  ["streaming_get_matching on both stores"]),
P("C10", "A bounding box selects exactly the tiles inside it",
  "A request with a bounding box returns exactly the entries whose tile lies within it, edges included, whatever the layout of "
  "tiles along the storage order. A box that ends before it starts selects nothing.",
  ["inputs"], "every box over up to 3 arbitrary tiles, and over 6 to 33 tiles of which one is arbitrary",
  "Tests try a few boxes on fixed lists; the z-order range cut depends on where corners fall among the tiles.",
  [("bbox_range and bbox_filter", "spatial.rs:bbox_filter"), ("coord_binary_search", "spatial.rs:coord_binary_search")],
  ["streaming_get_matching with MatchOpts.bbox"]),
P("C11", "A proximity point orders tiles by z-order distance, losing none",
  "With a proximity point, the entries of a phrase that share relevance and score come back in nondecreasing distance along the "
  "z-order curve from the point. Every entry still comes back exactly once.",
  ["inputs"], "every point and up to 3 arbitrary tiles; 6 to 33 tiles with arbitrary point or one arbitrary tile",
  "Tests try a few points on short consecutive lists.",
  [("proximity", "spatial.rs:proximity"), ("coord_binary_search", "spatial.rs:coord_binary_search")],
  ["streaming_get_matching with MatchOpts.proximity"]),
P("C12", "Box and proximity together: tiles in the box, nearest first",
  "With both a box and a proximity point, exactly the entries inside the box come back, those sharing relevance and score in "
  "nondecreasing z-order distance from the point. The point may lie anywhere, inside or outside the box.",
  ["inputs"], "every point and box with up to 2 arbitrary tiles; 4 to 33 tiles with arbitrary point, box sides or tile",
  "Tests try a few combinations on fixed lists.",
  [("bbox_proximity_filter", "spatial.rs:bbox_proximity_filter"), ("bbox_range", "spatial.rs:bbox_range")],
  ["streaming_get_matching with MatchOpts.bbox and proximity"]),
P("C13", "Returned entries carry the right relevance, distance and scoredist",
  "With a proximity point each returned entry's distance is the Euclidean tile distance from the point to its tile, its scoredist "
  "follows from zoom, distance, score and the store's radius, and its relevance is demoted by 4 percent exactly when it neither "
  "matches the language nor lies within the radius. Without a point distance is 0 and scoredist is the score; tile, id, score and "
  "hash are those stored.",
  ["inputs", "configurations"], "arbitrary ids, hashes, scores and languages; tiles and points at distances on both sides of the radius; every zoom 0 to 16; several radii",
  "Tests check a few distances at one zoom.",
  [("decode_matching_value", "store.rs:decode_matching_value"), ("scoredist", "spatial.rs:scoredist"), ("proximity_radius", "spatial.rs:proximity_radius")],
  ["MatchEntry fields from streaming_get_matching"]),
P("C14", "Matches stream best first, and a cap keeps the best",
  "Without a proximity point, entries from all the phrases a request covers come back in nonincreasing order of relevance after "
  "demotion, then score. Asking for at most k entries and taking k gives the same sequence of relevance and score as taking the "
  "first k without a cap.",
  ["inputs"], "up to 4 phrases or languages with arbitrary scores, every request language, k from 1 to 5",
  "Tests look at a few fixed results.",
  [("priority queue over phrases", "store.rs:GridStore::streaming_get_matching"), ("merge by score", "store.rs:decode_matching_value")],
  ["streaming_get_matching with max_values"]),
P("C15", "Boxes change zoom exactly",
  "Moving a box to a lower zoom gives the smallest box of tiles there that covers it; moving it to a higher zoom gives exactly "
  "the tiles it contains there. This holds for every pair of zooms from 0 to 16 and every box of its zoom, without overflow, and "
  "the global box of a zoom is all of its tiles.",
  ["inputs"], "every box and every pair of zooms from 0 to 16",
  "Tests check about ten boxes; the edges of the 16-bit range at zoom 16 are tried once.",
  [("adjust_bbox_zoom", "spatial.rs:adjust_bbox_zoom"), ("adjust_to_zoom", "common.rs:MatchOpts::adjust_to_zoom"), ("global_bbox_for_zoom", "spatial.rs:global_bbox_for_zoom")],
  ["MatchOpts::adjust_to_zoom, global_bbox_for_zoom"]),
P("C16", "Proximity points change zoom into the right tile",
  "Moving a proximity point to a lower zoom gives the tile containing it; moving it to a higher zoom gives the tile just above and "
  "left of the centre of the area it covers. The result is a valid tile that contains, or is contained in, the original one, for "
  "every pair of zooms from 0 to 16.",
  ["inputs"], "every point and every pair of zooms from 0 to 16",
  "Tests check about eight points.",
  [("adjust_to_zoom", "common.rs:MatchOpts::adjust_to_zoom")],
  ["MatchOpts::adjust_to_zoom"]),
P("C17", "Nearby-only confines a request to the area around the point",
  "Restricting options to nearby results leaves a box that selects exactly the valid tiles at most 25 miles' worth of tiles (rounded "
  "up at the zoom) away from the proximity point in both directions, and inside the box already there. Without a point nothing "
  "changes, and neither does the point or the zoom.",
  ["inputs"], "every point and box and every zoom from 0 to 16",
  "Tests check four points; the far edge of the 16-bit range is not tried.",
  [("with_nearby_only", "common.rs:MatchOpts::with_nearby_only")],
  ["MatchOpts::with_nearby_only, and streaming_get_matching with the result"]),
P("C18", "Scoredist rewards score and nearness",
  "At a given zoom and radius, scoredist never increases with distance and never decreases with score, does not depend on distance "
  "beyond the radius, and is finite and positive for a positive radius. Tile distance is symmetric and zero only for the same tile.",
  ["inputs"], "every score, distances along whole tile rows, zooms 0 to 16, several radii",
  "Tests check two values.",
  [("scoredist", "spatial.rs:scoredist"), ("tile_dist", "spatial.rs:tile_dist")],
  ["MatchEntry.scoredist and distance from streaming_get_matching"]),
P("C19", "The bounded queue keeps exactly the best",
  "After any sequence of pushes and pops, the bounded queue holds the largest elements allowed by its size among those pushed and "
  "not popped, its minimum and maximum are right, and draining it gives descending order. A push reports whether the element was kept.",
  ["histories"], "every sequence of up to 5 pushes of arbitrary values with pops in between, sizes 0 to 4",
  "No test drives the queue directly.",
  [("ConstrainedPriorityQueue", "common.rs:ConstrainedPriorityQueue")],
  ["ConstrainedPriorityQueue's public methods"]),
P("C20", "Stacks combine exactly the compatible phrase matches",
  "The stacks enumerated are exactly the sets of phrase matches from different index types whose masks are pairwise disjoint and "
  "whose indexes are pairwise allowed to overlap, each once. Each node carries the union of its masks and excluded indexes, and "
  "its own index and zoom.",
  ["inputs"], "up to 4 phrase matches with arbitrary masks, pairwise exclusions and types",
  "Tests check a handful of fixed phrase matches and only some of the resulting stacks.",
  [("binned_stackable", "stackable.rs:binned_stackable"), ("stackable", "stackable.rs:stackable")],
  ["the tree returned by stackable"], None),
P("C21", "A stack node's best relevance bounds everything below it",
  "Each node's best relevance is the largest total weight of any stack at or below it. When there are too many stacks to keep, "
  "those dropped are no better than those kept, so the best stack is always kept.",
  ["inputs"], "arbitrary masks, weights from a grid, up to 4 phrase matches; thousands of stacks for the limit",
  "Tests look at the maximum of a few trees and once exceed the limit with one pattern.",
  [("ArenaManager", "stackable.rs:ArenaManager"), ("binned_stackable", "stackable.rs:binned_stackable")],
  ["the tree returned by stackable"], None),
P("C22", "A single-query search returns each feature once at its best",
  "Searching with one subquery returns one context per feature, with the feature's best relevance and the subquery's weight "
  "applied, sorted by relevance then scoredist. Every feature whose relevance is within 0.25 of the best is present when they fit "
  "the limit, feature id 0 included, and ids, tiles, masks and flags are those of the data.",
  ["inputs"], "up to 4 entries with arbitrary ids, tiles, scores and languages, with and without box",
  "Tests search small fixed stores whose ids start at 1.",
  [("coalesce_single", "coalesce.rs:coalesce_single"), ("coalesce", "coalesce.rs:coalesce")],
  ["coalesce with one subquery"]),
P("C23", "Every stacked result is consistent with the data",
  "Each context a multi-subquery search returns combines real entries of distinct subqueries with disjoint masks, whose tiles contain "
  "one another across zooms; its mask is their union and its relevance their sum, less 0.01 when it is headed by the deepest "
  "subquery and is unstacked or ascending.",
  ["inputs"], "2 and 3 subqueries with arbitrary tiles, ids, scores and masks at equal and different zooms",
  "Tests look at a few fixed stacks.",
  [("coalesce_multi", "coalesce.rs:coalesce_multi")],
  ["coalesce with several subqueries"]),
P("C24", "A plain search of several queries finds every overlap",
  "For two subqueries with disjoint masks, every entry of the deeper one whose tile lies in a tile of the other is stacked on the "
  "most relevant such entry, and every other entry of either stands alone. Of each feature the best of these is returned, once, when it is "
  "less than 0.25 below the best of all. A box given at any zoom restricts both to the tiles it selects at their own zooms. With more subqueries, an entry of the "
  "deepest inside an entry of the shallowest is stacked on that and on one of each part of the query over it, the most relevant of alternatives at one zoom.",
  ["inputs"], "up to 2 entries a side with arbitrary tiles at zoom pairs from 0 to 16, 3 or 4 subqueries of 1 or 2 entries",
  "Tests check a few hand-placed overlaps.",
  [("coalesce_multi", "coalesce.rs:coalesce_multi")],
  ["coalesce with two or more subqueries"]),
P("C25", "Results are bounded, sorted, distinct and close to the best",
  "A search returns at most 40 contexts, in nonincreasing order of relevance then scoredist, no two headed by the same feature of "
  "the same index, and none 0.25 or more below the best. When each feature has one tile and there is no point, "
  "no feature left out, of any of the indexes, is better than one returned.",
  ["inputs"], "1 to 3 subqueries with arbitrary entries; stores of up to 90 features with arbitrary scores",
  "Tests have few results and check fixed orders.",
  [("coalesce", "coalesce.rs:coalesce"), ("CoalesceContext order", "common.rs:CoalesceContext")],
  ["coalesce"]),
P("C26", "Every tree-search result is consistent with the data",
  "Each context of the tree search combines real entries of the phrase matches of one stack, each inside the previous one's tile "
  "across zooms; its mask is their union and its relevance their sum, less 0.01 when ascending or a lone entry of a phrase match that "
  "others could be stacked on. Results are sorted best first.",
  ["inputs"], "2 and 3 phrase matches with arbitrary tiles, ids, scores and masks, zoom pairs from 0 to 16",
  "Tests look at a few fixed stacks.",
  [("tree_coalesce", "coalesce.rs:tree_coalesce"), ("tree_coalesce_single", "coalesce.rs:tree_coalesce_single")],
  ["stack_and_coalesce, tree_coalesce"]),
P("C27", "Collapsing phrase matches loses and merges nothing wrongly",
  "Collapsing groups phrase matches that agree in weight, index and mask, in order of first appearance, and keeps every match key "
  "of every phrase match exactly once, in order, attached to its own group. Phrase matches that differ in any of the three stay separate.",
  ["inputs"], "up to 4 phrase matches with arbitrary weights, indexes, masks, 1 to 3 keys each",
  "Tests collapse one fixed list whose members have one key each.",
  [("collapse_phrasematches", "coalesce.rs:collapse_phrasematches")],
  ["collapse_phrasematches"]),
P("C28", "Eager grouping partitions a sequence into its runs",
  "Grouping a sequence by key yields its maximal runs of equal keys, in order, each with its key and all its items in order; the "
  "concatenation of the groups is the sequence. No more than one item beyond the returned group is read.",
  ["inputs"], "every sequence of up to 6 arbitrary keys",
  "One test checks two fixed sequences.",
  [("somewhat_eager_groupby", "common.rs:somewhat_eager_groupby")],
  ["somewhat_eager_groupby"]),
P("C29", "Relevance survives storage exactly for the four levels",
  "The four relevance levels 0.4, 0.6, 0.8 and 1 survive encoding and decoding unchanged and in order, and every other value is "
  "stored as 1. Every stored code decodes to one of the four levels, and codes order as the levels do.",
  ["inputs"], "every 64-bit float and every code byte",
  "No test covers values outside the levels.",
  [("relev_float_to_int", "common.rs:relev_float_to_int"), ("relev_int_to_float", "common.rs:relev_int_to_float")],
  ["relev_float_to_int, relev_int_to_float"]),
P("C30", "Contexts are totally ordered, consistently with equality",
  "The order of contexts compares relevance, then scoredist of the first entry, then lower index, then tile and id; it is total, "
  "antisymmetric and transitive, and equality agrees with it.",
  ["inputs"], "every three contexts with arbitrary fields, non-finite numbers included",
  "No test compares contexts directly.",
  [("CoalesceContext::sort_key", "common.rs:CoalesceContext")],
  ["Ord, PartialOrd and Eq of CoalesceContext"]),
P("C31", "The tree search finds every overlapping stack",
  "For two or three compatible phrase matches, every combination of entries whose tiles contain one another is returned by the tree "
  "search, and so is every single entry of each phrase match, as long as the result limit is not reached.",
  ["inputs"], "up to 2 entries a phrase match with arbitrary tiles at zoom pairs from 0 to 16, with index bounding boxes that cover them",
  "Tests check a few hand-placed overlaps.",
  [("tree_coalesce", "coalesce.rs:tree_coalesce")],
  ["stack_and_coalesce"]),
P("C39", "Every match key of a phrase match contributes exactly its own entries",
  "In a tree search a phrase match with several match keys finds the entries of every key: each entry of the phrases a key names, under that "
  "key's id and once for each key that names it, alone and in every stack with the entries of the keys of other phrase matches; a nearby-only "
  "key contributes exactly those in the area around the point, the others all of theirs. Keys given in one phrase match or in several that differ only in keys give the same.",
  ["inputs"], "up to 3 keys a phrase match with arbitrary ids, phrases and nearby-only flags; one or two phrase matches with arbitrary tiles",
  "Tests give almost every phrase match one key.",
  [("key groups are fetched and stacked one by one", "coalesce.rs:tree_coalesce"), ("grouping", "coalesce.rs:collapse_phrasematches"), ("with_nearby_only", "common.rs:MatchOpts::with_nearby_only")],
  ["stack_and_coalesce"]),
P("C42", "The limits on expensive prefix scans drop nothing else",
  "A tree search reads at most 8 one-letter prefix scans, 8 one-word scans of high-zoom (14 and up) indexes, 40 one-word scans, 40 scans and 600 requests of "
  "high-zoom indexes in all (nearby-only requests of those are exempt), best phrase matches first, and leaves out a slow one-word scan that cannot reach more than 0.75 of the best "
  "found. Everything else is answered: exact requests and ranges of one phrase, requests of low-zoom indexes that are not one-word scans, and every request within the limits.",
  ["inputs", "histories"], "any phrase range, letter count, mask and nearby-only flag for one request after others that bring a limit to its edge",
  "Tests check two of the limits with a handful of scans.",
  [("quotas", "coalesce.rs:tree_coalesce"), ("might_be_slow", "store.rs:GridStore::might_be_slow")],
  ["stack_and_coalesce"]),
P("C43", "An entry of a result says what a plain request says of it",
  "Whatever the search (single, multi or tree, nearby-only or not, options at any zoom), each entry of a result has the place, score, hash, language "
  "flag, distance and scoredist that requesting its store directly with the options adjusted to that store's zoom gives, and that relevance "
  "times the phrase match's weight; in a tree search what those requests answer is stacked wherever one tile holds the other.",
  ["inputs"], "entries around and away from proximity points at zooms 0 to 16, arbitrary languages, scores and hashes; up to three phrase matches",
  "Tests compare a few hand-computed distances.",
  [("grid_to_coalesce_entry", "coalesce.rs:grid_to_coalesce_entry"), ("options are adjusted to the store's zoom", "coalesce.rs:coalesce_multi"), ("CoalesceStep::new", "coalesce.rs:CoalesceStep::new")],
  ["coalesce, stack_and_coalesce, GridStore::streaming_get_matching"]),
P("C44", "Searching one phrase match as a tree or plainly gives the same",
  "For one phrase match with one key, asked at its store's zoom, stack_and_coalesce and coalesce give the same results in the same order, except that "
  "the tree search names the key in phrasematch_id.",
  ["inputs"], "up to 3 arbitrary entries, with boxes and around points, and up to 90 entries beyond the result limit",
  "Tests run the two on different data.",
  [("coalesce_single", "coalesce.rs:coalesce_single"), ("tree_coalesce_single", "coalesce.rs:tree_coalesce_single")],
  ["coalesce, stack_and_coalesce"]),
P("C45", "A dumped store loads back as the same store, or the dump fails",
  "Dumping a store and loading the dump gives a store with the same keys, entries in the same order and bin boundaries, which answers requests alike. "
  "A dump that ends without an error has written everything, whatever happened to its writes: short, interrupted and failed writes never lose "
  "data silently. A store made by create_store has exactly the given lists and options, and langarray_to_langfield the given languages.",
  ["inputs", "fault_sequences"], "every field around the edges of its width, up to 3 keys, up to 2 writes going wrong in every way at every place",
  "No test dumps or loads a store, and none makes a write fail.",
  [("dump_db_to_json", "test_utils/src/lib.rs:dump_db_to_json"), ("load_db_from_json", "test_utils/src/lib.rs:load_db_from_json_reader"),
   ("create_store", "test_utils/src/lib.rs:create_store"), ("keys and entries as JSON", "common.rs:GridKey")],
  ["dump_db_to_json, load_db_from_json, create_store, langarray_to_langfield, GridStore::iter"]),
P("C47", "What is recorded of a search reads back as it was",
  "Keys, match keys, options, entries and results written as JSON read back the same in every field. Subqueries recorded with their options are read by "
  "prepare_phrasematches and prepare_stackable_phrasematches as the same subqueries in the same order, one record per line that is not blank, with the same "
  "store options, weights, masks, keys and excluded indexes, and the search gives the same results again. Records from before nearby_only and "
  "phrase_length existed are read, as false and 0.",
  ["inputs"], "every field around the edges of its width, 2 records of up to 2 subqueries",
  "No test reads what another wrote.",
  [("what is recorded", "common.rs:PhrasematchSubquery"), ("indexes as a list", "common.rs:serialize_fixedbitset"), ("older records", "common.rs:MatchKeyWithId"),
   ("stores in records", "store.rs:GridStore"), ("reading records", "test_utils/src/lib.rs:prepare_phrasematches"),
   ("reading for stacking", "test_utils/src/lib.rs:prepare_stackable_phrasematches")],
  ["Serialize and Deserialize of the public types, prepare_phrasematches, prepare_stackable_phrasematches"]),
P("C46", "A build cut short is reported and leaves only whole lists",
  "finish, opening and reading fail exactly when the database does; nothing is swallowed. What a build leaves when any of its database operations fails "
  "(or the process stops there) never gives a wrong answer: each key that can be read has all its entries, and a range, bins or not, gives exactly the "
  "lists in it that are there.",
  ["crash_points", "inputs"], "every operation of a build of up to 3 keys, with and without bins",
  "Tests use a database that never fails.",
  [("finish writes boundaries last", "builder.rs:GridStoreBuilder::finish"), ("bins are used only when both ends are boundaries", "store.rs:streaming_get_matching"),
   ("opening", "store.rs:new_with_options")],
  ["GridStoreBuilder::finish, GridStore::new, get, keys and streaming_get_matching after a failed build"]),
P("C32", "Results do not depend on hash iteration order",
  "Building and searching give the same stored entries in the same order and the same results whatever order hash-based collections happen to iterate in.",
  ["schedules", "inputs"], "three iteration orders, with arbitrary entries, for building, single, multi and tree searches",
  "Tests run under whatever order one process's hash seeds give.",
  [("get_encoded_value sorts", "builder.rs:get_encoded_value"), ("sorted results", "coalesce.rs:coalesce_multi")],
  ["GridStoreBuilder::finish, coalesce, stack_and_coalesce"]),
P("C33", "Subquery order does not change a search's results",
  "A search's results are the same whatever order its subqueries are given in: for plain searches in the same order, "
  "for tree searches in the same order of relevance and scoredist.",
  ["inputs"], "all orders of 2 and 3 subqueries with arbitrary entries at equal and different zooms",
  "Tests give subqueries in one order.",
  [("coalesce_multi sorts by zoom and index", "coalesce.rs:coalesce_multi"), ("stackable bins by type", "stackable.rs:stackable")],
  ["coalesce, stack_and_coalesce"]),
P("C34", "Opening a store restores its options and bin boundaries",
  "A store opened after being finished reports the zoom, type, radius, boxes and score limit it is opened with and exactly the bin "
  "boundaries it was built with; opening with defaults gives the documented defaults.",
  ["inputs", "configurations"], "up to 4 arbitrary boundaries, arbitrary options",
  "Tests check one set of boundaries.",
  [("new_with_options", "store.rs:GridStore::new_with_options"), ("finish writes boundaries", "builder.rs:GridStoreBuilder::finish")],
  ["GridStore fields after GridStore::new / new_with_options"]),
P("C35", "The JavaScript store interface writes and returns what the Rust one does",
  "What a script writes through the JavaScript builder (insert, append, compactAppend, renumber, loadBinBoundaries, finish) is what the "
  "same calls of the Rust builder write, and a store's get and its key iterator give the script what is stored: every field of every "
  "entry, every key once, in order, with its languages. A list of language numbers stands for exactly those of its members below 128; "
  "null or undefined stands for all languages. A key that is not there gives undefined; the iterator ends after the last key and stays ended.",
  ["inputs", "histories"], "every phrase number, entry and language list; histories of three writes followed by renumbering and bins",
  "The JavaScript tests need Node and a built module and use a few fixed entries; none of them runs in the stable suite.",
  [("JsGridStoreBuilder", "native/src/gridstore.rs:JsGridStoreBuilder"), ("JsGridStore", "native/src/gridstore.rs:JsGridStore"),
   ("JsGridKeyStoreKeyIterator", "native/src/gridstore.rs:JsGridKeyStoreKeyIterator"),
   ("langarray_to_langset, langset_to_langarray", "native/src/gridstore.rs:langarray_to_langset")],
  ["the stores the module writes, opened with GridStore::new; the values its methods return"]),
P("C36", "A JavaScript search gives the result of the search it describes",
  "coalesce and stackAndCoalesce called from JavaScript call back once, with exactly the results (every field of every entry, in order) "
  "that the Rust search gives for the phrase matches and options the script describes: the store opened with the options given to "
  "it, weight, mask, index, id, phrase or range of phrases, languages, indexes not to be combined with, nearby-only (false when left out), and the "
  "phrase's length in bytes of its UTF-8 form.",
  ["inputs", "configurations"], "every tile, id and box within the bounds; every kind of phrase, language list, option and nearby flag",
  "The JavaScript tests compare a few fixed searches and do not run in the stable suite; a field handed over wrongly changes few results.",
  [("deserialize_phrasesubq", "native/src/gridstore.rs:deserialize_phrasesubq"), ("js_coalesce", "native/src/gridstore.rs:js_coalesce"),
   ("js_stack_and_coalesce", "native/src/gridstore.rs:js_stack_and_coalesce"), ("JsGridStore init", "native/src/gridstore.rs:JsGridStore")],
  ["what the callback is given, against coalesce and stack_and_coalesce"]),
P("C37", "JavaScript calls that cannot be carried out throw and change nothing",
  "A call of the JavaScript interface whose argument is left out or of another type than asked for, or has a key, entry, coordinate, store option, "
  "phrase match or search option with a part missing, of another type or outside the range of its field, throws; nothing is written, "
  "searches do not call back, and the builder or store goes on working. A finished builder throws on every further call, and its store "
  "stays as it is. No call crashes.",
  ["inputs", "histories"], "every argument and part, left out or replaced with each kind of JavaScript value, with arbitrary numbers out of range",
  "Tests try a handful of wrong calls; the combinations of argument and kind run into hundreds.",
  [("prep_for_insert", "native/src/gridstore.rs:prep_for_insert"), ("builder methods", "native/src/gridstore.rs:JsGridStoreBuilder"),
   ("deserialize_phrasesubq", "native/src/gridstore.rs:deserialize_phrasesubq"), ("GridStoreOpts", "native/src/gridstore.rs:GridStoreOpts")],
  ["whether the call throws, and the store written afterwards"]),
P("C38", "The phrase-set bindings hand over arguments and results unchanged",
  "Each method of the JavaScript phrase set and its builder passes the phrases, distances (capped at 255), endings, ids and replacements it is "
  "given to the fuzzy-phrase library, returns what the library answers, and throws exactly when the library fails or the builder is "
  "finished. getPrefixBins returns the first phrase id of each bin and one past the last id of the last bin (nothing when there are no bins), so a "
  "store built with these boundaries answers a request for each bin with exactly that bin's phrases.",
  ["inputs"], "every distance, id and answer; up to 4 bins",
  "Tests run the library and the bindings together on fixed phrases, under Node only.",
  [("JsFuzzyPhraseSet", "native/src/fuzzy_phrase.rs:JsFuzzyPhraseSet"), ("JsFuzzyPhraseSetBuilder", "native/src/fuzzy_phrase.rs:JsFuzzyPhraseSetBuilder"),
   ("getPrefixBins", "native/src/fuzzy_phrase.rs:getPrefixBins")],
  ["what the double of fuzzy-phrase is asked, and what the methods return"]),
P("C40", "A search's results do not depend on how its parallel tasks are scheduled",
  "A tree search runs its requests and its stacks as parallel tasks. It gives the same results, in the same order and under the same phrase match ids, as it does when the "
  "tasks run one after the other, whatever their order and wherever they interrupt each other, and leaves nothing behind that changes a later search.",
  ["schedules"], "every order of up to 4 tasks and more choices in larger searches, with up to 2 interruptions at operations on locks and atomics",
  "Tests run under one schedule, which the machine picks.",
  [("into_par_iter phases", "coalesce.rs:tree_coalesce")], ["tree_coalesce", "stack_and_coalesce"]),
P("C41", "A finished store survives reopening and crashes as the database promises",
  "Data of a finished store is readable by later opens and other processes, and a crash while building never yields a store that "
  "opens with part of the data presented as complete.",
  ["crash_points"], "every crash point of a build",
  "Tests open a store once in the process that built it.",
  [("finish", "builder.rs:GridStoreBuilder::finish"), ("DB::open", "store.rs:GridStore::new_with_options")], ["GridStore::new on the directory"]),
]

NOT_APPLICABLE = {
    "C41": "Durability is decided inside RocksDB (C++, not installed, not encodable by the Rust IR executor); the crate only calls "
           "put/open, and the stand-in used by the checks has no crash behaviour of its own to verify.",
}
