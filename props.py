"""What each check runs: cases of its harness, the bounds they state, and what they must reach."""

TRUST = [
    "rustc's LLVM back end up to the emitted IR, the IR executor in /verif/engine, z3, and the stand-ins in /verif/shims "
    "(in-memory rocksdb rows, morton, min-max-heap, fxhash, indexmap, static-bushes, std hash containers, sequential rayon)",
    "sampled paths are replayed natively against the same crate and compared, which tests but does not prove the executor",
]

BINDINGS = [
    "neon, neon-serde, owning_ref and fuzzy-phrase are stand-ins (/verif/shims): JavaScript values of their documented meaning, tasks "
    "performed at once, and a scripted double of the phrase set",
]


def case(n, what, bounds="", covers=(), **k):
    d = {"case": n, "what": what, "bounds": bounds, "covers": list(covers)}
    d.update(k)
    return d


PROPS = {}

PROPS["C01"] = {
    "cases": [
        case(0, "every small record shape", "<=3 groups, <=3 coords, <=3 ids; all bytes of ids, coords and scores symbolic", ["end"]),
        case(1, "pieces at addresses around 128 and 256", "2 groups, pads 0..300", ["end"]),
        case(2, "pieces at addresses around 16384", "2 groups, 32 consecutive offsets", ["end"]),
        case(3, "pieces at addresses around 65536", "2 groups, 32 consecutive offsets", ["end"]),
        case(4, "group list and coordinate lists at addresses up to 2^22", "2 groups", ["end"]),
        case(5, "list lengths around 128 and 256, in every combination", "up to 300 groups, tiles and ids, 3 of each symbolic", ["lengths"]),
        case(6, "list lengths around 16384 and 32768", "one long list, 3 of its members symbolic", ["lengths"]),
        case(7, "list lengths around 65536", "one list of up to 70001, 3 of its members symbolic", ["lengths"], max_steps=300000000),
        case(8, "single values at any place", "pads 0..65536; all values symbolic", ["scalars"]),
        case(9, "lists at addresses around 2^24", "2 groups, 12 consecutive offsets", ["end"]),
    ],
    "outside": "records over 17 MB, lists over 70001 elements",
}

Q = ("thorough",)

PROPS["C02"] = {
    "cases": [
        case(0, "any coordinate at its minimal width", "any coordinate, pointer <= 2^32", ["width5", "width6", "width7", "width8"]),
        case(1, "any pointer to an id list", "one varint pointer of any 32-bit value", ["pointer"]),
        case(2, "the root's pointer", "any pointer, any root position", ["root"]),
        case(3, "lists mixing near and far members", "3 members, gap up to 255 bytes", ["mixed"]),
        case(4, "lists mixing near and far members", "3 members, gaps around 2^16", ["mixed"]),
        case(5, "lists mixing near and far members", "3 members, gaps around 2^24", ["mixed"]),
        case(6, "longer lists, one member pointing far", "up to 257 members, gaps up to 65530", ["long"]),
        case(7, "long lists, one member pointing far", "up to 66000 members, gaps up to 70000", ["long"], max_steps=300000000),
        case(8, "one tile alone at any width that holds it", "pointers up to 2^24", ["alone"]),
    ],
    "outside": "lists of more than 3 members with more than one pointing far, or of more than 66000",
}
PROPS["C03"] = {
    "cases": [
        case(0, "two arbitrary keys", "any phrase id, any language set, both kinds", ["ordered", "kinds"]),
        case(1, "keys listed from a store", "2 keys, any ids, language sets of every encoded length", ["one", "two"]),
        case(2, "lookup of a key", "2 stored keys, 1 wanted", ["hit", "miss"]),
        case(3, "matching against exact and range requests", "any key, any request", ["match"]),
        case(4, "a crowd of keys and an arbitrary one", "48 fixed keys", ["new", "again"]),
    ],
    "outside": "stores of more than 2 arbitrary keys",
}
PROPS["C04"] = {
    "cases": [
        case(0, "any three phrase ids, any request", "3 phrases", ["none", "one", "two", "three"]),
        case(1, "phrases around byte boundaries of the encoding, any request", "32 fixed phrases", ["narrow", "wide"]),
        case(2, "one phrase under several language sets", "3 language sets of different lengths", ["hit", "miss"]),
        case(3, "a crowd of phrases, plainly and through bins", "300 phrases, any exact request, ranges of any length up to 1000", ["narrow", "wide"]),
    ],
    "outside": "more than 3 arbitrary phrases",
}
PROPS["C05"] = {
    "cases": [
        case(0, "a phrase under two language sets", "one arbitrary 128-bit set, one of 4 shapes, any requested set", ["match", "demoted"]),
        case(1, "the same through prefix bins", "2 phrases in a bin", ["bins"]),
        case(2, "a phrase under several language sets, any requested set, plainly and through bins", "6 fixed sets, 3 entries each", ["several"]),
    ],
    "outside": "more than two arbitrary language sets in one request",
}
PROPS["C06"] = {
    "cases": [
        case(0, "arbitrary entries", "<=3 entries, every field symbolic", ["one", "two", "three"]),
        case(1, "shared tiles, scores and ids with one arbitrary entry", "16..19 entries", ["new", "duplicate"]),
        case(2, "keys do not mix", "3 keys", ["keys"]),
        case(3, "id lists that may share", "2 tiles of 3 arbitrary ids", ["distinct", "repeated"]),
        case(4, "long lists with one partly arbitrary entry", "40 to 130 entries", ["new", "duplicate"]),
    ],
    "outside": "more than 3 arbitrary entries under one key",
}
PROPS["C07"] = {
    "cases": [
        case(0, "histories of insert, append and compact_append", "3 operations, 2 keys", ["compared", "absent"]),
        case(1, "four ways of adding the same entries", "3 entries", ["ways"]),
        case(2, "id lists longer than their inline space", "8 ids of one tile", ["long"]),
        case(3, "any features and source phrases at one tile", "3 operations", ["one", "two", "three"]),
        case(4, "longer histories, one arbitrary feature and tile", "6 operations, 3 keys", ["compared", "absent"]),
    ],
    "outside": "longer histories",
}
PROPS["C08"] = {
    "cases": [
        case(0, "any mapping", "<=3 keys, <=4 mapped phrases", ["outside", "clash", "moved"]),
        case(1, "a permutation of 24 with two arbitrary targets", "24 keys", ["moved", "clash"]),
        case(2, "a long permutation with an arbitrary target", "130 to 300 keys", ["clash", "moved"]),
    ],
    "outside": "larger arbitrary mappings",
}
PROPS["C09"] = {
    "cases": [
        case(0, "any phrases, boundaries and request", "<=2 phrases, <=3 boundaries", ["none", "one", "two", "three"]),
        case(1, "shared tiles, scores, ids and languages in fixed bins", "8 phrases, 4 bins, 2 languages", ["empty", "some"]),
        case(2, "a crowd of phrases and an arbitrary one", "36 fixed phrases, 5 bins", ["some"]),
    ],
    "outside": "more phrases per bin",
}
_B = ["none", "one", "two", "several"]
PROPS["C10"] = {
    "cases": [
        case(0, "any box over arbitrary tiles", "<=3 tiles", _B),
        case(1, "any box, one arbitrary tile", "6 tiles", _B),
        case(2, "any box, one arbitrary tile", "12 tiles", _B, tiers=Q),
        case(3, "any box over fixed tiles", "10 tiles", _B),
        case(4, "fixed boxes, one arbitrary tile", "33 tiles", ["several"]),
        case(5, "any box over arbitrary tiles", "4 tiles", _B, tiers=Q),
        case(6, "any box over fixed tiles", "16 tiles", _B, tiers=Q),
        case(7, "boxes with two arbitrary sides, one arbitrary tile", "33 tiles", ["several"], tiers=Q),
        case(8, "any box, two arbitrary tiles", "8 tiles", _B, tiers=Q),
        case(9, "fixed boxes, one arbitrary tile", "300 tiles", ["several"]),
    ],
    "outside": "more than 300 tiles under one relevance and score",
}
PROPS["C11"] = {
    "cases": [
        case(0, "any point over arbitrary tiles", "<=3 tiles", ["first", "inner"]),
        case(1, "any point, one arbitrary tile", "6 tiles", ["first", "inner"]),
        case(2, "any point over fixed tiles", "16 tiles", ["first", "inner"]),
        case(3, "fixed points, one arbitrary tile", "33 tiles", ["first", "inner"]),
        case(4, "any point over arbitrary tiles", "4 tiles", ["first", "inner"], tiers=Q),
        case(5, "any point over fixed tiles", "40 tiles", ["inner"], tiers=Q),
        case(6, "fixed points, one arbitrary tile", "300 tiles", ["first", "inner"]),
    ],
    "outside": "more than 300 tiles under one relevance and score",
}
PROPS["C12"] = {
    "cases": [
        case(0, "any box and point over arbitrary tiles", "<=2 tiles", ["none", "one", "two"]),
        case(1, "boxes with two arbitrary sides, one arbitrary tile", "4 tiles", _B),
        case(2, "fixed boxes, any point", "12 tiles", ["two", "several"]),
        case(3, "any box, fixed points", "7 tiles", _B),
        case(4, "fixed boxes and points, one arbitrary tile", "33 tiles", ["several"]),
        case(5, "any box and point over arbitrary tiles", "3 tiles", _B, tiers=Q),
        case(6, "two arbitrary box sides, any point", "12 tiles", _B, tiers=Q),
        case(7, "two arbitrary box sides, one arbitrary tile", "33 tiles", ["several"], tiers=Q),
        case(8, "two arbitrary box sides, one arbitrary tile", "6 tiles", _B, tiers=Q),
        case(9, "fixed boxes and points, one arbitrary tile", "300 tiles", ["several"]),
    ],
    "outside": "more than 300 tiles under one relevance and score",
}
PROPS["C13"] = {
    "cases": [
        case(0, "arbitrary entry and request around a point", "1 entry, tiles on both sides of the radius", ["beyond", "within"]),
        case(1, "arbitrary entry without a point", "1 entry", ["no point"]),
        case(2, "languages at the edge of the radius", "tiles within one of the radius", ["edge"]),
        case(3, "several entries of one key", "3 entries", ["several"]),
        case(4, "other zooms", "zooms 0 to 16, several radii", ["beyond", "within"], tiers=Q),
    ],
    "outside": "distances other than those between the listed tiles and points (square roots stay out of the solver)",
}
PROPS["C14"] = {
    "cases": [
        case(0, "one entry a key, more keys than the cap", "3 keys, any scores and languages", ["single"]),
        case(1, "several entries a key", "2 keys, 5 entries", ["all", "some"]),
        case(2, "around a point", "2 keys", ["point"]),
        case(3, "one entry a key", "4 keys", ["single"]),
        case(4, "one entry a key", "5 keys", ["single"], tiers=Q),
        case(5, "many keys, one arbitrary score, any language, plainly and through bins", "16 keys of 3 entries", ["many"]),
    ],
    "outside": "more than 5 arbitrary keys",
}
PROPS["C15"] = {
    "cases": [
        case(0, "any box between any two zooms", "all boxes, all pairs of zooms 0..16", ["in", "out", "same"]),
        case(1, "the global box", "zooms 0..16", ["global"]),
    ],
    "outside": "nothing for the two functions",
}
PROPS["C16"] = {
    "cases": [
        case(0, "any point between any two zooms", "all points, all pairs of zooms 0..16", ["in", "out", "same"]),
        case(1, "point and box together", "all", ["both"]),
    ],
    "outside": "nothing for the function",
}
PROPS["C17"] = {
    "cases": [
        case(0, "any point, any box", "zooms 0..16", ["boxed", "free"]),
        case(1, "without a point", "any box", ["unchanged"]),
        case(2, "what a request with the result returns", "any point, 1 arbitrary tile", ["near", "none"]),
    ],
    "outside": "zooms above 16",
}
PROPS["C18"] = {
    "cases": [
        case(0, "any score, two distances", "zoom 14, distances along tile rows", ["beyond", "same", "within"]),
        case(1, "tile distance", "offsets of 5 bits", ["distance"]),
        case(2, "any score, two distances", "zooms 0 to 16", ["beyond", "same", "within"]),
    ],
    "outside": "distances other than those listed",
}
PROPS["C19"] = {
    "cases": [
        case(0, "pushes and pops", "<=4 operations, sizes 0..4, any values", ["drained", "iterated", "pop", "replaced"]),
        case(1, "pushes and pops", "<=5 operations, sizes 0..4, any values", ["drained", "iterated", "pop", "replaced"]),
        case(2, "long histories of fixed values and an arbitrary one", "14 operations, sizes 1..8", ["drained", "iterated", "pop", "replaced"]),
        case(3, "long histories of fixed values and two arbitrary ones", "12 operations, sizes 1..8", ["drained", "iterated", "pop", "replaced"], tiers=Q),
    ],
    "outside": "longer histories of arbitrary values",
}
PROPS["C20"] = {
    "cases": [
        case(0, "any masks, types and exclusions", "3 phrase matches", ["some"]),
        case(1, "types in any order, any exclusions", "4 phrase matches, distinct masks", ["some"]),
        case(2, "two types of two, any masks", "4 phrase matches", ["some"]),
        case(3, "four types, any masks", "4 phrase matches", ["some"]),
        case(5, "five types, three arbitrary masks", "5 phrase matches", ["some"], tiers=Q),
        case(6, "seven phrase matches of several types, one arbitrary mask", "7 phrase matches", ["some"]),
    ],
    "outside": "more phrase matches",
}
PROPS["C28"] = {
    "cases": [
        case(0, "any sequence", "<=6 keys", ["none", "one", "two", "several"]),
        case(1, "groups are produced without reading ahead further than needed", "5 keys", ["lazy"]),
        case(2, "long runs", "70 to 520 items, 3 of them arbitrary", ["one", "two", "several"]),
    ],
    "outside": "longer sequences of many arbitrary keys",
}
PROPS["C29"] = {
    "cases": [
        case(0, "any value", "all 2^64 floats", ["any"]),
        case(1, "any code", "all codes", ["codes"]),
        case(2, "a value stored and read back", "all 2^64 floats", ["stored"]),
    ],
    "outside": "nothing for the two functions",
}
PROPS["C30"] = {
    "cases": [
        case(0, "any two contexts", "all fields", ["less", "equal", "greater"]),
        case(1, "any three contexts", "all fields", ["chain"]),
    ],
    "outside": "contexts of other than one entry (further entries are not looked at by the code path taken)",
}
PROPS["C34"] = {
    "cases": [
        case(0, "any boundaries", "<=4 boundaries", ["empty", "some", "unset"]),
        case(1, "any options", "all fields", ["options"]),
        case(2, "many boundaries, one arbitrary", "127 to 300 boundaries", ["many"]),
    ],
    "outside": "more boundaries",
}
_C = ["none", "one", "two", "several"]
PROPS["C21"] = {
    "cases": [
        case(0, "any masks, weights from a grid, an exclusion", "3 phrase matches", ["flat", "stacked"]),
        case(1, "any masks, weights from a grid", "4 phrase matches", ["flat", "stacked"]),
        case(2, "more stacks than are kept, one phrase match with any mask", "3 x 14 phrase matches, limit 2000", ["limited"]),
        case(3, "the same, worst first", "3 x 14 phrase matches", ["limited"]),
        case(4, "fewer stacks than the limit, one phrase match with any mask", "18 phrase matches", ["all"]),
    ],
    "outside": "other patterns of thousands of stacks; weights whose sums are inexact",
}
PROPS["C22"] = {
    "cases": [
        case(0, "any ids and tiles", "<=3 entries", ["one", "several", "two"]),
        case(1, "any ids, relevances and weights", "<=3 entries", ["one", "two"]),
        case(2, "any box", "<=3 entries", ["none", "one", "two"]),
        case(4, "around a point", "3 entries at 5 distances, any ids", ["point"]),
        case(3, "any ids and tiles", "<=4 entries", ["one", "several", "two"], tiers=Q),
        case(5, "a crowd of features taking turns, one arbitrary entry", "24 entries", ["crowd"]),
    ],
    "outside": "more arbitrary entries (C25 has up to 95 mostly fixed ones)",
}
PROPS["C23"] = {
    "cases": [
        case(0, "two subqueries, any masks, tiles and ids", "1 and 2 entries, 7 zoom combinations", ["lone", "pair"]),
        case(1, "three subqueries, any tiles", "1 entry each, 9 mask combinations", ["lone", "pair", "triple"]),
        case(2, "three subqueries, one arbitrary tile each", "2 entries each", ["pair", "triple"]),
        case(3, "four subqueries with alternatives, one arbitrary tile", "1 or 2 entries each, 7 mask, 4 zoom and 3 weight combinations", ["pair", "triple", "quadruple"]),
        case(4, "five or six subqueries around one place, one arbitrary tile", "4 zoom and 4 mask combinations", ["quadruple", "more"]),
    ],
    "outside": "masks of zero, more than six subqueries, more arbitrary entries",
}
PROPS["C24"] = {
    "cases": [
        case(0, "any tiles, several masks and languages", "1 and 2 entries, 8 zoom pairs", ["lone", "pair"]),
        case(1, "any tiles, relevances and weights", "2 and 1 entries", ["lone", "pair"]),
        case(2, "one feature in two tiles", "1 and 2 entries", ["lone", "pair"]),
        case(3, "any box at several zooms", "1 and 1 entries", ["lone", "pair"]),
        case(4, "any tiles", "2 and 2 entries", ["lone", "pair"], tiers=Q),
        case(5, "a crowd of fixed tiles, one arbitrary", "12 and 12 entries, 5 zoom pairs", ["pair"]),
        case(6, "three subqueries", "1 entry each, any tiles, 5 zoom and 4 mask combinations", ["lone", "pair", "triple"]),
        case(7, "four subqueries, two of them alternatives", "1 entry each, any tiles, 5 zoom and 4 mask combinations", ["lone", "pair", "triple"]),
        case(8, "three subqueries", "1, 2 and 1 entries, any tiles", ["lone", "pair", "triple"]),
    ],
    "outside": "more arbitrary entries a side; alternatives at different zooms, and stacks that leave out the shallowest subquery (the search leaves these out itself)",
}
PROPS["C25"] = {
    "cases": [
        case(0, "one subquery, one arbitrary score", "45 features of three relevances", ["fewer"]),
        case(1, "one subquery, one arbitrary score", "60 features", ["more"]),
        case(2, "one subquery, one arbitrary score", "95 features", ["more"]),
        case(3, "two subqueries, one arbitrary tile and id", "12 stacked entries", ["part"]),
        case(4, "two subqueries, one arbitrary tile and id", "100 stacked entries", ["full"]),
        case(5, "one subquery, two arbitrary scores", "60 features", ["more"]),
        case(6, "two subqueries that do not stack, with ids in common, one arbitrary tile and score", "8 features each", ["fewer"]),
        case(7, "two subqueries that do not stack, with ids in common, one arbitrary tile and score", "30 features each", ["more"]),
        case(8, "three subqueries, stacks exactly 0.25 apart, one arbitrary tile", "2, 1 and 2 entries, 3 zoom and 3 mask combinations", ["three", "two"]),
    ],
    "outside": "features of several tiles past 80 entries",
}
PROPS["C26"] = {
    "cases": [
        case(0, "two phrase matches, any masks, tiles and ids", "1 and 2 entries, 7 zoom combinations", ["lone", "pair"]),
        case(1, "three phrase matches, any tiles", "1 entry each, 9 mask combinations", ["lone", "pair", "triple"]),
        case(2, "three phrase matches, one arbitrary tile each", "2 entries each", ["pair", "triple"]),
        case(3, "five or six phrase matches around one place, one arbitrary tile", "4 zoom and 4 mask combinations", ["quadruple", "more"]),
    ],
    "outside": "more than six phrase matches, more arbitrary entries",
}
PROPS["C27"] = {
    "cases": [
        case(0, "any indexes and masks, two weights", "<=3 phrase matches, 1 or 2 keys each", ["none", "one", "two", "three"]),
        case(1, "any number of keys", "3 phrase matches, 1 to 3 keys each", ["one", "two"]),
        case(2, "any indexes and masks, two weights", "4 phrase matches, 2 keys each", ["one", "two", "three", "four"]),
        case(3, "any weights", "2 phrase matches", ["one", "two"]),
        case(4, "a crowd of phrase matches and an arbitrary one", "20 phrase matches", ["crowd"]),
    ],
    "outside": "weights that are not numbers",
}
PROPS["C31"] = {
    "cases": [
        case(0, "two phrase matches, any tiles", "2 and 1 entries, 8 zoom pairs", ["none", "one", "several"]),
        case(1, "several masks and languages", "1 and 2 entries", ["none", "one", "several"]),
        case(2, "three phrase matches in any order, any tiles", "1 entry each", ["none", "one", "several"]),
        case(3, "any box at several zooms", "1 and 1 entries", ["none", "one"]),
        case(6, "an index covering two arbitrary areas", "2 and 1 entries", ["none", "one", "several"]),
        case(7, "more stacks than are searched at a time", "10 phrase matches on or below one", ["none", "one", "several"]),
        case(4, "three phrase matches, any tiles", "1, 2 and 1 entries", ["none", "one", "several"]),
        case(5, "two phrase matches, any tiles", "2 and 2 entries", ["none", "one", "several"]),
        case(8, "a crowd of fixed tiles, one arbitrary", "12 and 12 entries, 5 zoom pairs", ["several"]),
        case(9, "five phrase matches around one place, one arbitrary tile", "4 zoom and 4 mask combinations, 2 orders", ["several"]),
    ],
    "outside": "more arbitrary entries",
}
PROPS["C39"] = {
    "cases": [
        case(0, "one phrase match with several keys, any tiles, as one or apart", "3 phrases, <=3 keys, 5 zooms", ["one", "several"]),
        case(1, "two keys with any ids and any ranges of phrases", "3 phrases", ["nothing", "one", "several"]),
        case(2, "one phrase match below another, several keys each, any tiles", "<=3 keys each, 5 zoom pairs", ["several", "no pair", "a pair", "pairs"]),
        case(3, "nearby-only keys, any range of phrases, tiles at the area's edge, boxes", "2 keys each, 4 zoom pairs", ["nothing", "one", "several", "no pair", "pairs"]),
        case(4, "larger phrases and more keys", "3 keys and 4 entries each", ["several", "pairs"]),
        case(5, "many phrases and keys, one arbitrary range and tile", "12 phrases, 9 keys, 3 zoom pairs", ["several", "pairs"]),
    ],
    "outside": "more keys; nearby areas around arbitrary points (C17 decides the area itself)",
}
PROPS["C42"] = {
    "cases": [
        case(0, "any request after single-letter scans", "7 or 8 before it", ["read", "dropped"]),
        case(1, "any request after one-word scans of slow indexes", "7 or 8 before it", ["read", "dropped"]),
        case(2, "any request after one-word scans", "39 or 40 before it", ["read", "dropped"]),
        case(3, "any request after scans of several words in slow indexes", "39 or 40 before it", ["read", "dropped"]),
        case(4, "any request after requests that use up nothing", "38 to 45 before it", ["read"]),
        case(5, "any request after many exact requests in slow indexes", "599 or 600 before it", ["read", "dropped"]),
        case(6, "any request after the best is known", "9 before it, 5 weights", ["skipped", "answered"]),
        case(7, "any request after a mixture of all kinds", "7 to 100 before it, 4 mixtures", ["read", "dropped"]),
    ],
    "outside": "other mixtures of requests",
}
PROPS["C43"] = {
    "cases": [
        case(0, "one phrase match, plain", "3 entries, 3 zooms, 2 points, any languages", ["lone"]),
        case(1, "two phrase matches, plain", "3 entries each, 4 zoom pairs", ["lone", "stacked"]),
        case(2, "two phrase matches, as a tree", "3 entries each, 4 zoom pairs, nearby-only or not", ["lone", "stacked"]),
        case(3, "one phrase match, as a tree", "3 entries, 5 zooms, nearby-only or not", ["none", "lone"]),
        case(4, "three phrase matches, plain", "3 entries each", ["lone", "stacked"]),
        case(5, "three phrase matches, as a tree", "3 entries each", ["lone", "stacked"]),
    ],
    "outside": "distances are concrete per path: entries lie at listed moves from listed points",
}
PROPS["C44"] = {
    "cases": [
        case(0, "any tiles and ids, any box", "<=3 entries", ["none", "one", "two", "several"]),
        case(1, "any ids, all relevances", "<=3 entries", ["one", "two", "several"]),
        case(2, "any ids around a point", "3 entries, 3 zooms, 2 points", ["one", "two", "several"]),
        case(3, "more features than are returned, one of them repeating another", "39 to 90 entries", ["several"]),
    ],
    "outside": "more arbitrary entries",
}
PROPS["C45"] = {
    "cases": [
        case(0, "one entry, any field at the edges of its width", "32 consecutive numbers around 4 places", ["loaded"]),
        case(1, "several keys, with bins and requests", "<=3 keys, <=2 entries", ["bins", "nothing", "one key", "two keys", "three keys"]),
        case(2, "writes that fail, are interrupted or write a part", "<=2 of them, lines shorter and longer than a buffer",
             ["a failed write", "a long line", "a short write", "an interrupted write", "panicked", "whole"]),
        case(3, "a store made from lists of entries", "<=3 keys, 17 zooms", ["created"]),
        case(4, "a list of languages as a set", "<=3 languages below 128", ["none", "one", "two", "three"]),
        case(5, "a file with blank lines and with or without a last newline", "2 keys", ["loaded"]),
    ],
    "assumptions": ["files are in memory (/verif/shims/std_tools): what becomes of each write is explored; serde_json is the real crate at the locked version"],
    "outside": "downloading and unpacking (no network, no lz4)",
}
PROPS["C47"] = {
    "cases": [
        case(0, "a value of each type of the interface, one field at the edges of its width", "16 consecutive numbers around 4 places", ["value"]),
        case(1, "keys as older records have them", "16 consecutive numbers around 4 places, 6 sets of languages", ["older"]),
        case(2, "records of searches, with blank lines", "2 records, <=2 subqueries, one field at the edges of its width", ["one", "two", "searched"]),
        case(3, "records read for stacking", "2 records, 2 subqueries, one field at the edges of its width", ["stacks"]),
    ],
    "assumptions": [
        "what is downloaded is given by the harness and not compressed (/verif/shims/rusoto_s3, lz4); serde and serde_json are the real crates at the locked version",
    ],
    "outside": "weights and relevances of more than 16 digits, which this version of serde_json does not read back exactly; the network; lz4",
}
PROPS["C46"] = {
    "cases": [
        case(0, "any operation of a build fails, and every one after it", "<=3 keys with any phrases near each other, bins or not", ["a part is there", "built", "failed", "nothing there"]),
        case(1, "opening or reading fails", "3 operations", ["not opened", "not read", "read"]),
    ],
    "assumptions": ["a database operation that reports failure has changed nothing; one that reports success is visible to later ones"],
    "outside": "errors while iterating, which the database's iterator does not report; what the database itself keeps after a crash (C41)",
}
PROPS["C40"] = {
    "cases": [
        case(0, "three phrase matches searched in a task each", "any order of the tasks, interrupted <=2 times", ["another order", "several"]),
        case(1, "a stack of two", "any order of the tasks of both phases, interrupted <=2 times", ["another order", "several"]),
        case(2, "a stack of three", "9 choices of the schedule, interrupted once", ["another order", "several"], tiers=Q),
        case(3, "phrase matches of two or three match keys", "any order of the tasks, interrupted once", ["another order", "several"]),
        case(4, "ten scans of short prefixes, more than are read", "3 choices of the schedule, interrupted once", ["another order", "several"]),
        case(5, "four phrase matches searched in a task each", "any order of the tasks, interrupted <=2 times", ["another order", "several"], tiers=Q),
        case(6, "a stack of three", "12 choices of the schedule, interrupted <=2 times", ["another order", "several"], tiers=Q),
        case(7, "ten scans of short prefixes, more than are read", "5 choices of the schedule, interrupted <=2 times", ["another order", "several"], tiers=Q),
        case(8, "a stack of three", "4 choices of the schedule, interrupted once", ["another order", "several"]),
    ],
    "assumptions": [
        "tasks are interrupted at operations on locks and atomics, the only things safe Rust lets them share (the store's memory map is only read); "
        "atomics are sequentially consistent",
        "parallel iterators give results in the order of their items, as rayon documents",
    ],
    "outside": "weaker memory orders; thread-local state, which the tasks of a real pool share in part; rayon itself",
}
PROPS["C32"] = {
    "cases": [
        case(0, "building and reading", "3 keys, 3 entries", ["built"]),
        case(1, "plain search of one subquery", "3 entries", ["several", "two"]),
        case(2, "tree search of one phrase match", "3 entries", ["several", "two"]),
        case(3, "plain search of two subqueries", "1 and 2 entries", ["one", "several", "two"]),
        case(4, "tree search of two phrase matches", "1 and 2 entries", ["several", "two"]),
        case(5, "plain search of three subqueries", "1, 2 and 1 entries", ["one", "several", "two"]),
        case(6, "tree search of three phrase matches", "1, 2 and 1 entries", ["several"]),
    ],
    "outside": "iteration orders other than insertion, reverse and rotated",
}
PROPS["C33"] = {
    "cases": [
        case(0, "plain search of two, any masks", "1 and 2 entries, 4 zoom pairs", ["one", "several", "two"]),
        case(1, "tree search of two, any masks", "1 and 2 entries, 4 zoom pairs", ["several", "two"]),
        case(2, "plain search of three", "1 entry each, all orders", ["one", "two"]),
        case(3, "tree search of three", "1 entry each, all orders", ["several"]),
        case(5, "tree search with two phrase matches of one type", "1 entry each, all orders", ["several"]),
        case(6, "plain search of five around one place, one arbitrary tile", "4 zoom and 4 mask combinations, 5 orders", ["several", "two"]),
        case(7, "tree search of five around one place, one arbitrary tile", "4 zoom and 4 mask combinations, 5 orders", ["several"]),
    ],
    "outside": "more subqueries, other orders of five",
}
PROPS["C35"] = {
    "cases": [
        case(0, "any phrase, entry and one language, or several", "1 entry", ["stored"]),
        case(1, "a history of three writes, then renumbering and bins", "2 entries a write", ["binned", "renumbered"]),
        case(2, "listing keys", "<=2 keys, 64 language sets", ["none", "one", "two"]),
        case(3, "a longer history with an arbitrary entry, then renumbering", "6 writes of 7 entries", ["longer"]),
        case(4, "any database operation fails", "building, opening, reading", ["not built", "not opened", "not read", "read"]),
    ],
    "assumptions": BINDINGS,
    "outside": "language numbers that are not whole or are below zero, longer histories",
}
PROPS["C36"] = {
    "cases": [
        case(0, "two phrase matches, any tiles and ids", "1 and 2 entries, 3 zoom pairs", ["one", "several"]),
        case(1, "phrases by number and by range, any box", "3 entries", ["none", "one", "several"]),
        case(2, "points, nearby-only and the store's options", "3 entries", ["none", "one", "several"]),
        case(3, "phrases of one letter and more", "12 phrase matches", ["several"]),
        case(4, "phrase matches kept apart, any tile of one", "7 indexes, 8 indexes to keep apart from", ["several"]),
    ],
    "assumptions": BINDINGS,
    "outside": "more phrase matches, points other than those listed",
}
PROPS["C37"] = {
    "cases": [
        case(0, "every argument of the builder's methods, left out or of another kind", "9 kinds", ["left out", "another kind"]),
        case(1, "every part of an argument, missing, of another kind or out of range", "9 kinds", ["key", "field", "range", "coordinate"]),
        case(2, "a finished builder", "2 further calls", ["finished"]),
        case(3, "opening and asking a store", "9 kinds", ["options", "stores"]),
        case(4, "every part of a search", "9 kinds", ["missing", "kind", "phrase", "options"]),
    ],
    "assumptions": BINDINGS,
    "outside": "numbers past their field's range given where the bindings convert instead of checking",
}
PROPS["C38"] = {
    "cases": [
        case(0, "building a phrase set", "3 phrases, <=3 ids", ["built", "failed"]),
        case(1, "asking a phrase set", "any distances and answers", ["contains", "match", "windows", "multi", "by id", "failed"]),
        case(2, "prefix bins, and a store built with them", "<=4 bins", ["bins", "store", "failed"]),
    ],
    "assumptions": BINDINGS,
    "outside": "the fuzzy-phrase library itself, of which there is a double",
}
