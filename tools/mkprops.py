"""Writes properties.jsonl (the statements live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_CODEC = 'The unit tests encode a few hand-picked values; '
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None)))

p('P01', 'Numbers, characters and flags survive the binary format',
  'Every 64-bit, 32-bit and pointer-sized unsigned integer, byte, character, boolean and 32-bit float written to the binary format is read back as exactly the same value (floats bit for bit). Reading consumes exactly the bytes that were written and leaves everything after them untouched.',
  ['inputs'], 'all values of each scalar type, followed by any bytes', T_CODEC + 'the encoded length depends on the magnitude (one to ten bytes) and most lengths are never reached.',
  ['serialize/primitives.rs'], [('variable-length integers', 'src/serialize/primitives.rs'), ('big-endian floats', 'src/serialize/primitives.rs')],
  ['the serialize and deserialize operations of each scalar type'])
p('P02', 'Texts, lists, arrays and maps survive the binary format',
  'A text, list, fixed-size array or map written to the binary format is read back with the same contents (a list in the same order, a map with the same associations), whatever its elements are and however they nest, provided the elements themselves survive. Exactly the written bytes are consumed.',
  ['inputs'], 'all texts (any Unicode), lists, arrays and maps, followed by any bytes', T_CODEC + 'one list and a handful of ASCII and accented texts.',
  ['serialize/collections.rs', 'serialize/traits.rs'], [('length prefix, then the elements', 'src/serialize/collections.rs'), ('texts as UTF-8 bytes', 'src/serialize/collections.rs')],
  ['the serialize and deserialize operations of each collection type'])
p('P03', 'Lists of product ids survive the binary format, sorted',
  'A collection of ids written as a sequential list is read back as the same ids in ascending order, with the same number of repetitions of each and nothing added or lost. When the ids are looked up among products on loading, each id yields exactly the product at that position.',
  ['inputs'], 'all finite sequences of ids, in any order and with repetitions', 'No test writes an id list on its own; the index test only sees the lists that one small catalogue produces.',
  ['serialize/sequential_array.rs', 'data/product.rs'], [('sort, then store differences', 'src/serialize/sequential_array.rs')],
  ['sequential_array serialize and deserialize', 'loading of tags, categories and postings'])
p('P04', 'Malformed files are refused without a crash',
  'Reading any bytes at all as any part of the binary format either fails cleanly or yields a value: it never panics, never overflows and never reserves memory out of proportion to the input. A successful read always consumes at least one byte and leaves a suffix of its input.',
  ['inputs', 'fault_sequences'], 'all byte strings', 'The tests only ever read what the writer produced.',
  ['serialize/primitives.rs', 'serialize/collections.rs', 'serialize/sequential_array.rs', 'serialize/nodes.rs', 'serialize/all_indexes.rs', 'data/container.rs', 'data/product.rs', 'data/vendor.rs', 'data/features.rs', 'classic_indexes/categorical.rs', 'classic_indexes/tag.rs', 'classic_indexes/order.rs'],
  [('checked slicing and early returns', 'src/serialize'), ('capacity capped by what is left of the input', 'src/serialize/collections.rs')],
  ['every deserialize operation', 'loading a whole index'])
p('P05', 'A truncated file is refused',
  'If the bytes of any written value, or of a whole saved index, are cut off anywhere before their end, reading them back fails instead of yielding a different value.',
  ['inputs', 'crash_points'], 'all values and all strict prefixes of their encodings', 'No test cuts an encoding short.',
  ['serialize/primitives.rs', 'serialize/collections.rs', 'serialize/sequential_array.rs', 'serialize/nodes.rs', 'serialize/all_indexes.rs', 'data/container.rs'],
  [('every read checks that its bytes are there', 'src/serialize')], ['every deserialize operation', 'loading a whole index'])
p('P06', 'Saved descriptions are trimmed at a word boundary within the limit',
  'A text that fits the byte limit is saved unchanged. A longer text is saved as a prefix of itself that fits the limit: it is cut before the last space among the characters up to and including the first one that does not fit (a space at the very start does not count), and when there is no such space, directly before the first character that does not fit.',
  ['inputs'], 'all texts (any Unicode) and all limits', 'The one test of trimming uses a few texts; multi-byte characters at the limit and unusual spaces are not reached.',
  ['serialize/collections.rs'], [('limit_string_len', 'src/serialize/collections.rs')], ['saving a product', 'serialize_string_with_limit'])
p('P07', 'Products, vendors and features survive the binary format',
  'A saved container of products is read back with the same products in the same order (the same title, id and vendor, position as number, the trimmed description), the same vendors under the same numbers, and the same values for every feature.',
  ['inputs'], 'all containers of products', 'The one round-trip test compares a single catalogue.',
  ['data/container.rs', 'data/product.rs', 'data/vendor.rs', 'data/features.rs'], [('vendor numbers implied by position', 'src/data/vendor.rs'), ('product numbers implied by position', 'src/data/container.rs')],
  ['saving and loading a product container'])
p('P08', 'A saved index loads as the same index',
  'Saving the search index with its categories, tags and sort orders and loading the bytes gives an index that answers like the original: the same products, gram tree (with the same weights and order of children), gram lists, categories with the same option numbers, tags and sort orders. Saving what was loaded and loading it again changes nothing further.',
  ['inputs', 'histories'], 'all catalogues and gram lengths, any number of save and load rounds', 'One test does one round for one catalogue and one gram length.',
  ['serialize/all_indexes.rs', 'serialize/nodes.rs', 'classic_indexes/mod.rs', 'classic_indexes/categorical.rs', 'classic_indexes/tag.rs', 'classic_indexes/order.rs', 'lib.rs'],
  [('serialize_all and deserialize_all', 'src/serialize/all_indexes.rs')], ['saving, loading and saving again'])
p('P09', 'Gram lists are complete, sorted and cut off at four fifths',
  'For every position of a product\'s feed of characters, the gram of the last N characters there (padded at the front at the start of the feed) lists that product once for that position; every list holds nothing else and is sorted by product. Exactly the grams contained in more than four fifths of the products (rounded down) are left out.',
  ['inputs'], 'all catalogues, feeds and gram lengths', 'The index test only checks that building does not panic.',
  ['ngram/indexer.rs'], [('sliding window over the feed', 'src/ngram/indexer.rs'), ('cut-off by distinct products', 'src/ngram/indexer.rs')],
  ['the gram lists of a built index'])
p('P10', 'The gram tree holds exactly the substrings of the feeds, with their frequencies',
  'The paths of the gram tree are exactly the substrings of the products\' feeds of up to N characters, and the weight of each node is the number of occurrences of its path divided by that of its parent path (or by the total number of characters for a first character). The children of a node are listed from most to least frequent, each once, and looking a child up by character finds the same node.',
  ['inputs'], 'all catalogues, feeds and gram lengths', 'No test looks at the tree.',
  ['ngram/indexer.rs'], [('queue of open prefixes', 'src/ngram/indexer.rs'), ('immutalize', 'src/ngram/indexer.rs')], ['the roots of a built index'])
p('P11', 'Fuzzy gram matching returns the best allowed reading',
  'Matching a gram of N characters against the tree returns a gram that is a path of the tree, starts with the same character, and is read from the query with corrections made from left to right: replacing the next character by another (a correction), dropping the character just read in favour of the next (a correction, not directly after another drop), or adding a character (counts as two). A correction may be made while the count so far is below one third of N (rounded down). The confidence is the product of the weights along the path. No other such reading has a higher confidence; a gram that is itself a path of the tree is always matched, and nothing is returned when no such reading exists.',
  ['inputs'], 'all trees and queries', 'No test matches a misspelt gram.',
  ['ngram/index.rs'], [('recursive search with a limit on changes', 'src/ngram/index.rs')], ['matching one gram against a built index'])
p('P12', 'Search results list each product once, best first, with summed confidence',
  'The results of a search contain exactly the products listed under the matched grams of the query, each exactly once. The confidence of a product is the sum of the confidences of the matches that list it (once per listing), and results are in descending order of confidence.',
  ['inputs'], 'all indexes and queries', 'No test checks the result of a search.',
  ['ngram/index.rs', 'ngram/result_ranker.rs'], [('ResultRanker', 'src/ngram/result_ranker.rs')], ['the result of a search'])
p('P13', 'Categories group products by option value, in order of first appearance',
  'The categories are the distinct option names of the catalogue in order of first appearance, the options of each are its distinct values in order of first appearance, and an option contains exactly the products that have that value under that name, each once. Options are numbered 0, 1, 2 and so on through all categories in that order, before and after saving.',
  ['inputs'], 'all catalogues', 'The round-trip test compares one catalogue with itself.',
  ['classic_indexes/categorical.rs'], [('find or append', 'src/classic_indexes/categorical.rs')], ['category listing and membership'])
p('P14', 'Every tag holds exactly the products that carry it',
  'There is exactly one entry per distinct tag of the catalogue, and it contains exactly the products that carry the tag. Tags are numbered densely from zero, the number of a tag is its position, and looking it up by that number finds it, before and after saving.',
  ['inputs'], 'all catalogues', 'The round-trip test compares one catalogue with itself.',
  ['classic_indexes/tag.rs'], [('TagIndex::index', 'src/classic_indexes/tag.rs')], ['tag listing and membership'])
p('P15', 'Sort orders rank every product, ties in catalogue order',
  'There are exactly three sort orders: alphabetical by title, by ascending price and by descending price. Each assigns every product its position in the sorted catalogue, so that the positions are a permutation and products that compare equal keep their catalogue order.',
  ['inputs'], 'all catalogues with valid prices', 'No test looks at the sort orders.',
  ['classic_indexes/order.rs', 'data/raw_parser.rs'], [('stable sort, then inverse permutation', 'src/classic_indexes/order.rs')], ['the sort orders of a built index'])
p('P16', 'Every product keeps its own price and image',
  'After indexing, and again after saving and loading, the price and the image address read for a product are the minimum price and the first media address of that same product (an empty address when it has no media), whatever the other products have. A feature that was never added, or a position beyond the last product, reads as nothing.',
  ['inputs'], 'all catalogues', 'No test reads a feature.',
  ['data/raw_parser.rs', 'data/features.rs'], [('one value per product in catalogue order', 'src/data/raw_parser.rs')], ['feature lookup for a product'])
p('P17', 'Facet choices toggle and all chosen facets must match',
  'Toggling a category option or tag switches it between chosen and not chosen and changes no other; its status reads back accordingly. A product passes exactly when it is contained in every chosen option and tag, and listing walks through all categories, options and tags once, in order.',
  ['inputs', 'histories'], 'all sequences of toggles and queries', 'The facet handlers have no tests.',
  ['js_interactable/category_handler.rs', 'js_interactable/tag_handler.rs'], [('map of active keys', 'src/js_interactable')], ['toggle, status, listing and filtering'])
p('P18', 'Feature filters keep exactly the products in range or equal',
  'A range filter keeps, in order, exactly the products whose number for the feature lies between the given bounds, both included, where a missing bound does not restrict; products without such a number are dropped unless both bounds are missing. An exact filter keeps exactly the products whose value equals the given one, and a filter description is read into one filter per feature, as a range when it has a bound and as an exact filter otherwise.',
  ['inputs'], 'all features, bounds, values and product lists', 'The filters have no tests.',
  ['js_interactable/feature_filter.rs'], [('parse and filter', 'src/js_interactable/feature_filter.rs')], ['filtering products by a feature', 'parsing a filter description'])
p('P19', 'The suggested tag is the best match above four fifths',
  'For a query, the suggested tag and query word are a pair with the greatest overlap (the fraction of equal characters at equal positions over the shorter length) among all pairs of a tag and a word of the query in which both have at least three characters. A suggestion is made exactly when the greatest overlap exceeds four fifths.',
  ['inputs'], 'all tags and queries (any Unicode)', 'Tag suggestion has no tests.',
  ['lib.rs'], [('tag_suggestion', 'src/lib.rs')], ['the tag suggestion endpoint'])
p('P20', 'Results are handed out in order, each with its own data',
  'A result list hands out its products one after another in the given order, each exactly once, then nothing any more. Each product handed out shows its own title, description, id, numeric features as numbers and text features as texts, and a feature of the other kind or of an unknown name as nothing.',
  ['inputs', 'histories'], 'all result lists and all sequences of requests', 'Result lists have no tests.',
  ['js_interactable/product_producer.rs'], [('cursor over ids', 'src/js_interactable/product_producer.rs')], ['the products handed out for a search'])
p('P21', 'Equal vendor names share one vendor, numbered densely',
  'After indexing a catalogue there is exactly one vendor per distinct vendor name, numbered densely from zero; looking a name up finds it, and every product refers to the vendor of its own name. A name that no product has is not found.',
  ['inputs', 'histories'], 'all catalogues and sequences of insertions', 'No test looks at vendors.',
  ['data/vendor.rs', 'data/raw_parser.rs'], [('VendorManager::insert', 'src/data/vendor.rs')], ['vendor lookup and numbers'])
p('P22', 'The search endpoint applies every filter and the chosen order',
  'The search endpoint hands out exactly the search results for the lower-cased query that pass the chosen categories, the chosen tags and every feature filter: in order of confidence, or in the named sort order when one is given. Without an index, with an unknown order name or with an unreadable filter description it hands out nothing.',
  ['inputs'], 'all indexes, queries, choices, filters and orders', 'The endpoint has no tests.',
  ['lib.rs'], [('search', 'src/lib.rs')], ['the search endpoint'])
p('P23', 'Observers are told every toggle exactly once',
  'Each toggle of a category option or tag calls every observer registered for it and every general observer exactly once per registration, with the new state, also when an observer fails. Removing an observer undoes one registration for that item and leaves all others in place.',
  ['histories'], 'all sequences of registrations, removals and toggles', 'Observers have no tests.',
  ['js_interactable/category_handler.rs', 'js_interactable/tag_handler.rs'], [('observer lists', 'src/js_interactable')], ['calls received by observers'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
