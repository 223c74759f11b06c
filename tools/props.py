"""What each property rests on: contract crates (with the functions of each that
matter to it), and how long the harness runs."""

# crate -> crates whose contracts it uses without proving them
CRATES = {
    'scalar': [],
    'coll': ['scalar'],
    'codec2': ['coll', 'scalar'],
    'ids': ['scalar'],
    'facets': [],
    'features': [],
    'vendors': [],
    'search': [],
    'classic': [],
    'records': ['scalar', 'coll', 'codec2', 'ids', 'vendors'],
    'indexes': ['scalar', 'coll', 'codec2', 'ids', 'vendors', 'records'],
    'indexer': [],
    'endpoint': ['facets', 'features', 'search', 'classic'],
    'catalogue': ['vendors', 'features', 'classic'],
    'making': ['scalar', 'coll', 'codec2', 'ids', 'vendors', 'records', 'indexes', 'features', 'classic', 'catalogue', 'indexer', 'search'],
    'session': ['scalar', 'coll', 'codec2', 'ids', 'vendors', 'records', 'indexes', 'features', 'classic', 'catalogue', 'indexer', 'search', 'making', 'facets', 'endpoint'],
}

PROPS = {
    'P01': dict(level='proof', note='Every value of every scalar type, any bytes after it: the encoder and decoder of each type are proved against one specification, and the round trip is a lemma over it. Trusted: char::from_u32 and the byte order of f32 conversions.',
                crates={'scalar': ['.']}, secs=8,
                rule='a random value of each scalar kind, with edge values of every encoded length; non-trivial when the value and the bytes that follow differ from earlier cases'),
    'P02': dict(level='proof', note='Proved for all contents and any element type that itself satisfies the codec contract. Trusted: contracts of the hash map, of String::from_utf8 and of byte iteration.',
                crates={'coll': ['.'], 'scalar': ['.']}, secs=8,
                bounded='array collections [T; N] held in arenas and text of other alphabets: random cases',
                rule='random lists, maps, arrays and texts, nested; distinct by content'),
    'P03': dict(level='proof', note='Proved: writing any id list and reading it back gives the same ids in ascending order. Trusted: slice::sort sorts, iterator collect keeps the order. Proved too: the lookup among products, which refuses an id that is not there.',
                crates={'ids': ['.'], 'scalar': ['usize'], 'records': ['sequential'], 'indexes': ['Category', 'Tag', 'GramIndex']}, secs=8,
                rule='random id lists with repetitions, in any order'),
    'P05': dict(level='proof', note='Proved: every decoder of a scalar, text, list, array or map rejects every strict prefix of an encoding. The same for features, products, vendors, categories, tags, orders, the gram tree and lists, and for a whole saved index (lemma whole_truncated).',
                crates={'scalar': ['deserialize'], 'coll': ['deserialize'], 'ids': ['deserialize'], 'records': ['deserialize', 'truncated'], 'indexes': ['deserialize']}, secs=12,
                rule='every strict prefix of the encoding of a random value'),
    'P04': dict(level='proof', note='Proved: no decoder of a scalar, text, list, array or map panics or overflows, capacities stay within the input, and success consumes bytes. The same for features, products, vendors, categories, tags, orders, the gram tree and lists, and for a whole saved index. Not covered by the proof: the depth of the recursion over nested nodes (recorded finding).',
                crates={'scalar': ['deserialize'], 'coll': ['deserialize'], 'ids': ['deserialize'], 'records': ['deserialize'], 'indexes': ['deserialize']}, secs=12,
                rule='random, mutated and truncated bytes given to every decoder'),
    'P06': dict(level='proof', note='Proved for all texts and limits. Trusted: char_indices and slicing of str at character offsets.',
                crates={'codec2': ['.']}, secs=8,
                rule='random texts of many alphabets around the limit'),
    'P07': dict(level='proof', note='Proved for every container whose products are numbered by position and refer to its vendors: writing and reading back keeps products, vendors, numbers and feature values, and a second round changes nothing. Assumed: contracts of the hash map, arenas and text conversion.',
                crates={'records': ['.'], 'codec2': ['.'], 'coll': ['.'], 'scalar': ['.'], 'vendors': ['.']}, secs=12,
                rule='random containers of products with long, empty and foreign texts, compared field by field after loading'),
    'P08': dict(level='proof', note='Proved for every catalogue (fewer than 2^22 products, 2^32 characters, valid prices): what is indexed and saved can be loaded, and what is loaded has the same products, tree, lists, categories, tags and orders, and saving what was loaded gives the same data again. Assumed: contracts of the hash maps and sets, arenas and text conversion.',
                crates={'indexes': ['.'], 'records': ['.'], 'codec2': ['.'], 'coll': ['.'], 'scalar': ['.'], 'ids': ['.'], 'vendors': ['.'], 'making': ['survives', '_ok$', 'index_and_serialize', 'ready', 'linked', 'within', 'totals_agree', 'grown_again', 'in_rising_order'], 'session': ['initialize', 'shares', 'orders_same', 'order_lengths', 'shared_is_ready']}, secs=12,
                rule='random catalogues indexed, saved, loaded, saved and loaded again; every part compared each time'),
    'P09': dict(level='proof', note='Proved for every catalogue of fewer than 2^22 products and every N: the lists kept are those of at most four fifths of the products, each with its products once per place, in order; the text of a product is its description, title and vendor in lower case, and what is loaded again has the same lists. Assumed: contracts of the hash map (entry, retain, iter_mut), of the deque and of sort; 0.8f32 times a length below 2^22 truncates to four fifths (the harness tries all of them).',
                crates={'indexer': ['index_from', 'count_products', 'DATA_CUTOFF'], 'making': ['index_and_serialize', 'Product', 'in_rising_order', 'ready']}, secs=12,
                rule='random catalogues, with grams around the cutoff, every list against an oracle'),
    'P10': dict(level='proof', note='Proved for every catalogue with fewer than 2^32 characters and every N: a path is in the tree exactly if it occurs, with its share of the occurrences of the path above, and children from most to least frequent; the tree that is loaded again is the same. Assumed: contracts of the hash map, the deque and the stable sort; Rc<RefCell> is an explicit heap, and nested borrows are proved to be of different cells; quotients of numbers are numbers.',
                crates={'indexer': ['index_from', 'immutalize', 'MutableGramNode', 'GramNode', 'occurances_to_weight'], 'making': ['index_and_serialize', 'grown', 'walked', 'straight_occurs', 'ready']}, secs=12,
                rule='random catalogues, every path of the tree and its weight against an oracle'),
    'P11': dict(level='proof', note='Proved for every tree, query and N below 765: the search returns a best allowed reading, every reading is a path of the tree with the product of its weights, and a path is always matched. For every catalogue, indexed or loaded: a gram of the query that occurs is matched, and a match occurs in the texts, with the product of the shares along its path (lemma match_occurs). Floats: results of * and > are opaque; numbers are assumed to be ordered.',
                crates={'search': ['recursive_search', 'search_gram'], 'making': ['match_occurs', 'walked', 'straight_occurs', 'grown', 'occ_shorter', 'total_', 'ready']}, secs=12,
                rule='random trees and queries with corrections, every gram matched against an oracle'),
    'P12': dict(level='proof', note='Proved for every index and query: the hits of every window are tallied per product and ranked. For every catalogue, indexed or loaded: what is found shows a gram matched, each product once, and every product listed under a gram matched is found (lemma found_in_catalogue). Assumed: contracts of the hash map and of the stable sort; float sums are opaque.',
                crates={'search': ['result_ranker', 'fn search', 'recursive_search'], 'making': ['found', 'held', 'hit', 'places_show', 'shown_places', 'ready'], 'session': ['filtered_numbers', 'held_in_place', 'handed', 'shared_is_ready']}, secs=12,
                rule='random catalogues and queries, results against an oracle'),
    'P13': dict(level='proof', note='Proved for every catalogue: the categories, their options, the products of each option and the numbers of the options. Assumed: contracts of the hash set, of Vec::get_mut and of find over iter_mut; the options of a catalogue fit in memory.',
                crates={'classic': ['Category'], 'indexes': ['Category'], 'catalogue': ['optimize', 'ClassicIndexes']}, secs=12,
                rule='random catalogues with repeated and similar names, values and empty options'),
    'P14': dict(level='proof', note='Proved for every catalogue: one entry per distinct tag, its products and its number. Assumed: contracts of the hash map and set.',
                crates={'classic': ['Tag'], 'indexes': ['Tag'], 'catalogue': ['optimize', 'ClassicIndexes']}, secs=12,
                rule='random catalogues with repeated, similar and empty tags'),
    'P15': dict(level='proof', note='Proved for every key function and comparison: the positions are those of the stable sort, as a permutation; and the three orders of a catalogue are by title, price down and price up. Assumed: contract of the stable sort and the order of texts and floats.',
                crates={'classic': ['OrderIndex'], 'catalogue': ['optimize', 'ClassicIndexes'], 'endpoint': ['fn get_orders', 'listed_names']}, secs=12,
                rule='random catalogues with equal titles and prices'),
    'P16': dict(level='proof', note='Proved: which value every position of every feature has after each append, and what reading yields. That saving keeps them is proved too. So is indexing: every product has the values of its own row, in every catalogue.',
                crates={'features': ['FeatureSet', 'impl Feature '], 'records': ['Feature'], 'catalogue': ['optimize', 'ProductContainer', 'to_intermediate']}, secs=12,
                rule='random catalogues with and without media, read by position and feature'),
    'P17': dict(level='proof', note='Proved for every state of the choices and every product. Trusted: contracts of the hash map and set, and of Arc.',
                crates={'facets': ['.']}, secs=12,
                rule='random toggles over random catalogues, every product tested after each'),
    'P18': dict(level='proof', note='Proved for every feature set and product list. Float order is the one f64 comparison assumed; iterator filter is assumed to keep order.',
                crates={'features': ['FeatureFilter', 'fn get', 'get_feature']}, secs=12,
                rule='random feature tables, bounds and filter descriptions'),
    'P19': dict(level='proof', note='Proved for every tag list and query (texts up to 2^24 characters): a best pair is suggested, and only one above four fifths. Assumed: quotients of lengths below 2^22 compare with 0.8f32 as the fractions do; splitting and walking texts.',
                crates={'endpoint': ['suggest', 'Suggestion', 'same_js_tag', 'overlap', 'TagIndex', 'four_fifths', 'best_step', 'counted_equal']}, secs=12,
                rule='random tags and queries with close words, the suggestion against an oracle'),
    'P20': dict(level='proof', note='Proved for every result list. The JavaScript boundary is represented by stand-ins.',
                crates={'features': ['Product', 'get_js']}, secs=12,
                rule='random containers and result lists, every product read'),
    'P21': dict(level='proof', note='Proved: inserting and looking up keep one vendor per name, dense numbers. Every product of a catalogue refers to the vendor of its name.',
                crates={'vendors': ['.'], 'catalogue': ['optimize', 'ProductContainer', 'to_intermediate']}, secs=12,
                rule='random catalogues with repeated and similar vendor names'),
    'P22': dict(level='proof', note='Proved for every index, query, choice, filter description and order: what is handed out is the search result, filtered and ordered. Assumed: contracts of iterator filter, stable sort and of the statics (a lock holds one value).',
                crates={'endpoint': ['fn search', 'get_orders', 'get_categories', 'get_tags', 'ProductProducer'], 'search': ['fn search', 'result_ranker', 'recursive_search'], 'features': ['FeatureFilter', 'fn get'], 'facets': ['is_valid', 'contains'], 'classic': ['get_orders'], 'session': ['.']}, secs=12,
                rule='random catalogues, queries, choices, filters and orders, the whole result against an oracle'),
    'P23': dict(level='proof', note='Proved over a log of calls. Trusted: the call boundary to JavaScript, which may fail.',
                crates={'facets': ['Handler']}, secs=12,
                rule='random registrations, removals and toggles with failing observers'),
}

_ALL = ['P%02d' % k for k in range(1, 24)]
NOT_APPLICABLE = {i: 'contracts for this property are not written yet' for i in _ALL if i not in PROPS}
