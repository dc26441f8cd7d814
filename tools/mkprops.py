#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties lives here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe)))
U8I='include/u5e/utf8_iterator.hpp'; U8U='include/u5e/utf8_util.hpp'; U8='include/u5e/utf8.hpp'
ES='include/u5e/basic_encodedstring.hpp'; GI='include/u5e/basic_grapheme_iterator.hpp'
GCB='src/u5e/props/grapheme_cluster_break.cpp'; BND='include/u5e/utf8_bounds.hpp'

prop('C01','UTF-8 reading yields the encoded codepoint',
 'Dereferencing a UTF-8 codepoint iterator (constant or mutable) that stands on any octet of a well-formed encoded codepoint yields exactly the scalar value encoded there. It reads only octets of that codepoint.',
 ['inputs'],'every scalar value U+0000..U+10FFFF (surrogates too), every octet of its encoding, both iterator kinds',
 'The tests decode a handful of letters and one 3-octet symbol; 1.1 million values and all octet positions inside them are never visited.',
 [U8I,U8U],[('current_codepoint','utf8_iterator_base'),('codepoint_size / is_7bit_character','utf8_util')],['operator* of utf8_const_iterator and utf8_iterator'])
prop('C02','Assigning through a UTF-8 iterator writes the shortest encoding',
 'Assigning a codepoint through a dereferenced mutable UTF-8 iterator stores exactly its standard shortest UTF-8 encoding, one to four octets starting where the iterator stood. No other octet of the buffer is read for size or changed, the iterator then still denotes that codepoint, and the next increment moves just past it.',
 ['inputs'],'every codepoint U+0000..U+10FFFF written at any position over a well-formed codepoint or over zeros',
 'Tests write three sample codepoints; a wrong size class, wrong lead octet or extra octet at any other value or boundary stays unseen.',
 [U8I,U8U],[('proxyobject::operator=','utf8_iterator'),('encoded_size','utf8_util')],['buffer after *it = codepoint, *it, ++it'])
prop('C03','UTF-32 to UTF-8 append is an exact conversion',
 'Appending a UTF-32 range to a UTF-8 text adds exactly the concatenation of the shortest UTF-8 encodings of its codepoints, in order and including U+0000. What the text held before stays as it was; appending it to a UTF-32 text copies the codepoints.',
 ['inputs'],'every codepoint value in every position of the range, empty ranges, any prior content',
 'Only a few accented letters pass through this conversion in the tests.',
 [U8,'include/u5e/utf32ne.hpp',ES],[('append_from_utf32ne','utf8 and utf32ne')],['native_string after append_from_utf32ne'])
prop('C04','Stepping over UTF-8 text visits every codepoint boundary once',
 'Incrementing a UTF-8 iterator from any octet of a codepoint lands on the first octet of the next codepoint, and decrementing lands on the first octet of the previous one. The postfix forms move the same way and return an iterator denoting the position before the move.',
 ['inputs'],'every pair of adjacent codepoints of every encoded length, every starting octet, const and mutable, prefix and postfix',
 'The tests walk two short fixed texts; boundary codepoints of each length and mid-codepoint starts backwards are not covered.',
 [U8I,U8U],[('forward_one_codepoint / rewind_one_codepoint / rewind_to_start_of_codepoint','utf8_iterator_base')],['raw_iterator_ after ++ and --'])
prop('C05','UTF-8 iterators compare equal exactly when on the same codepoint',
 'Two UTF-8 iterators into a well-formed text compare equal, wherever in their codepoints they stand, exactly when both positions belong to the same codepoint, and != is always the negation of ==. Comparing an end position with the end is decided without looking at the text, and the operands are never moved.',
 ['inputs'],'every pair of positions over two adjacent codepoints of any length, the end included, const and mutable',
 'Tests only compare iterators that stand on first octets, never two positions within a codepoint or across a boundary for all lengths.',
 [U8I],[('operator== / operator!=','utf8_const_iterator, utf8_iterator')],['operator==, operator!='])
prop('C06','Forward iteration of well-formed text stays inside the text',
 'Walking a well-formed UTF-8 or UTF-32 text forward from its beginning to its end, by codepoint or by grapheme, reads and writes no memory outside the text and reaches the end after exactly as many steps as there are units.',
 ['inputs','histories'],'all well-formed texts; every step checked for every codepoint as last unit of an exactly sized buffer, whole walks up to the stated length',
 'The tests run on std::string, whose terminator hides one-past-the-end reads, and sample a few texts.',
 [U8I,GI,ES],[('comparison with the end before dereference','utf8 iterators'),('find_end_of_grapheme','basic_grapheme_iterator')],['memory accesses of iteration loops'])
prop('C07','The bounds check accepts exactly the texts whose edges are complete',
 'The UTF-8 bounds check returns false exactly when the text begins with a continuation octet or when some start octet near its end announces more octets than the text still has, and true otherwise, including for empty text. It never reads outside the text, whatever octets it holds.',
 ['inputs'],'all octet contents; all lengths up to the stated bound, which exceeds the reach of any start octet',
 'Tests try seven literals; 256^n contents and the exact-length edge cases are out of reach.',
 [BND,U8U],[('check','utf8_bounds')],['return value of utf8_bounds::check, memory accesses'])
prop('C08','Enforcing bounds repairs exactly the octets that would overrun',
 'Enforcing UTF-8 bounds replaces by "?" every leading continuation octet and every start octet that announces more octets than the text still has, changes nothing else, and returns true exactly when nothing had to be replaced. Afterwards the bounds check accepts the text, and no memory outside the text is touched.',
 ['inputs'],'all octet contents; all lengths up to the stated bound, which exceeds the reach of any start octet',
 'Tests try a few literals and do not look at octets that must be left alone.',
 [BND,U8U],[('enforce','utf8_bounds')],['buffer and return value of utf8_bounds::enforce'])
prop('C09','Texts of different encodings cannot be mixed',
 'A program that hands UTF-8 text where UTF-32 text is expected, or the reverse, or walks a text held in storage whose unit does not match the encoding, does not compile. The matching, correctly typed program compiles.',
 ['programs'],'every public operation that takes a text, a range or an iterator of a stated encoding, over string and view storage',
 'A test that does not compile cannot be in the test suite.',
 [ES,U8,'include/u5e/utf32ne.hpp','include/u5e/encoding_assertion.hpp','include/u5e/iterator_assertion.hpp'],[('template parameters on Encoding; static_assert on unit size','basic_encodedstring, iterator_assertion')],['compiler verdict on client programs'])
prop('C10','A text object is a value wrapping its native string',
 'Constructing a text from a native string, copying it and assigning it yield a text with exactly the same units, and later changes to one do not show in the other when the storage owns its units. The native and codepoint begin and end positions delimit exactly the units of the text.',
 ['inputs'],'any content of the stated lengths, string and view storages, both encodings, self-assignment',
 'No test copies or assigns a text; until repaired, assignment did not even compile.',
 [ES],[('copy constructor, operator=, native_*/codepoint_* accessors','basic_encodedstring')],['native_string of each object'])
prop('C11','Appending a codepoint range copies exactly those codepoints',
 'Appending a codepoint range of one text to a text of the same encoding, of any storage, adds exactly the units from the first octet of the codepoint under the first position up to the first octet of the codepoint under the last position. The previous content and the source stay unchanged. The range may belong to the text appended to.',
 ['inputs'],'every codepoint at each edge, positions on any octet of a codepoint, empty ranges, string and view sources',
 'Only the truncation examples use it, which are not run as tests.',
 [ES,U8],[('append, native_const_iterator','basic_encodedstring, utf8, utf32ne')],['native_string after append'])
prop('C12','Appending a grapheme range copies whole graphemes',
 'Appending a range of graphemes adds exactly the native units from the start of the grapheme under the first position to the start of the grapheme under the last position, so a truncation on graphemes never splits one and never alters a codepoint.',
 ['inputs'],'every grapheme break class at each edge and every codepoint length, up to the stated number of codepoints',
 'No test calls it; until repaired it truncated codepoints to single octets.',
 [ES,GI],[('append(grapheme_iterator, grapheme_iterator)','basic_encodedstring')],['native_string after append'])
prop('C13','Grapheme_Cluster_Break lookup equals the Unicode 9.0 database',
 'For every codepoint the grapheme cluster break lookup returns the class the Unicode 9.0 database assigns, and OTHER for every value it does not list.',
 ['inputs'],'all 1,114,112 codepoints and every other int',
 'The tests look up fewer than twenty codepoints.',
 [GCB,'src/u5e/props/grapheme_cluster_break_data.hpp','include/u5e/props/grapheme_cluster_break.hpp'],[('binary search over ranges','grapheme_cluster_break::resolve')],['grapheme_cluster_break::resolve'])
prop('C14','Canonical_Combining_Class lookup equals the Unicode 9.0 database',
 'For every codepoint the combining class lookup returns the class the Unicode 9.0 database assigns, and 0 for every value it does not list.',
 ['inputs'],'all 1,114,112 codepoints and every other int',
 'The tests look up a handful of codepoints.',
 ['src/u5e/props/canonical_combining_class.cpp','src/u5e/props/canonical_combining_class_data.hpp'],[('binary search over sorted rows','canonical_combining_class::resolve')],['canonical_combining_class::resolve'])
prop('C15','Canonical decomposition of one codepoint is the full Unicode 9.0 one',
 'Canonically decomposing any codepoint appends its complete canonical decomposition per Unicode 9.0, algorithmic Hangul included, or the codepoint itself when it has none, and returns how many codepoints were appended. What the output held before is kept.',
 ['inputs'],'all 1,114,112 codepoints and every other int',
 'Four sample codepoints are tested; two thousand mappings and 11,172 syllables are not.',
 ['include/u5e/canonical_decomposition.hpp','include/u5e/codepoint_decomposition.hpp','src/u5e/props/canonical_decomposition_mapping.cpp','src/u5e/props/canonical_decomposition_mapping_data.hpp'],[('codepoint_decomposition over the mapping lookup','canonical_decomposition')],['output string and return value'])
prop('C16','Compatibility decomposition of one codepoint is the full Unicode 9.0 one',
 'Compatibility-decomposing any codepoint appends its complete compatibility decomposition per Unicode 9.0, whatever the kind of mapping, or the codepoint itself when it has none, and returns how many codepoints were appended. What the output held before is kept.',
 ['inputs'],'all 1,114,112 codepoints and every other int',
 'A few sample codepoints are tested; until repaired most of the mappings were missing.',
 ['include/u5e/compatibility_and_canonical_decomposition.hpp','include/u5e/codepoint_decomposition.hpp','src/u5e/props/compatibility_and_canonical_decomposition_mapping.cpp','src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.hpp'],[('codepoint_decomposition over the mapping lookup','compatibility_and_canonical_decomposition')],['output string and return value'])
prop('C17','Composition lookup is exactly the Unicode 9.0 primary composites',
 'For every pair of codepoints the composition lookup succeeds exactly when Unicode 9.0 defines a primary composite for it, exclusions respected and algorithmic Hangul included, and then yields that composite. When it fails it leaves the result untouched.',
 ['inputs'],'all pairs of ints',
 'Two or three pairs are tested out of 10^12.',
 ['src/u5e/props/canonical_composition_mapping.cpp','src/u5e/props/canonical_composition_mapping_data.hpp'],[('binary search over pairs; Hangul arithmetic','canonical_composition_mapping::resolve')],['canonical_composition_mapping::resolve'])
prop('C18','Grapheme boundaries between two codepoints follow the UAX #29 rules',
 'For any two adjacent codepoints there is a grapheme boundary between them exactly as the Unicode 9.0 rules GB3 to GB13, applied in order to that pair alone as this library documents, say.',
 ['inputs'],'all pairs of codepoints (every pair of break classes)',
 'Tests cover a dozen of the 324 class pairs.',
 [GI],[('is_grapheme_boundary','basic_grapheme_iterator')],['grapheme_begin()/++ over two-codepoint texts'])
prop('C19','Grapheme iteration partitions the text at the boundaries',
 'Iterating a text by grapheme yields consecutive, non-empty graphemes that together cover the text from its first to its last codepoint, whose edges are exactly the pairwise boundaries. Prefix and postfix increment advance alike, the postfix form returning the grapheme before the step.',
 ['inputs','histories'],'all break behaviours of adjacent codepoints up to the stated text length, both encodings',
 'Tests walk a few fixed texts.',
 [GI,'include/u5e/basic_grapheme.hpp'],[('find_end_of_grapheme, operator++','basic_grapheme_iterator')],['codepoint_begin/end of each grapheme'])
prop('C20','Seeking a grapheme from any codepoint finds the grapheme holding it',
 'A grapheme iterator constructed at any codepoint position of a text denotes the one grapheme of the forward partition that contains the position, and one constructed at the end denotes the end without reading there. Nothing outside the text is read.',
 ['inputs'],'every position, all break behaviours of adjacent codepoints up to the stated text length, both encodings',
 'One test seeks in one text.',
 [GI],[('find_start_of_grapheme','basic_grapheme_iterator')],['grapheme iterator built from (begin, end, where)'])
prop('C21','Grapheme iterators compare by the grapheme they denote',
 'Two grapheme iterators over one text are equal exactly when they denote the same grapheme or are both at the end; one compared with a codepoint position is equal exactly when the position lies in its grapheme. != is always the negation of ==, in either order.',
 ['inputs'],'every pair of positions, all break behaviours of adjacent codepoints up to the stated text length',
 'Tests compare against the end and the beginning only.',
 [GI],[('operator==, operator!=','basic_grapheme_iterator')],['operator==, operator!='])
prop('C22','Filtering applies the operation once per codepoint, in order',
 'Filtering a range calls the operation exactly once for every codepoint of the range, in order, with the given output, and returns the sum of what the operation returned. An empty range calls nothing and returns zero.',
 ['inputs'],'any codepoints, any operation result, ranges up to the stated length in both encodings',
 'One test filters one text with one operation.',
 ['include/u5e/filter.hpp'],[('filter','filter')],['calls of the operation, return value'])
prop('C23','Canonical ordering is the stable sort of each run of non-starters',
 'Putting a text into canonical order permutes only codepoints with non-zero combining class within maximal runs of such codepoints, sorting each run by class and keeping the order of equal classes; starters never move.',
 ['inputs'],'any codepoints, any assignment of combining classes, texts up to the stated length',
 'The tests order at most two marks; ties, starters inside and longer runs are unseen.',
 ['include/u5e/canonical_combining_order.hpp'],[('canonical_combining_sort','canonical_combining_order')],['result of normalization form D and of canonical_combining_sort'])
prop('C24','Canonical composition follows the Unicode composition algorithm',
 'Composing a canonically ordered text replaces each codepoint that is not blocked from the last starter and has a primary composite with it, repeatedly, and drops nothing else; the result is the one the Unicode standard defines. The reported count is the number of codepoints that disappeared and the returned position ends the composed text.',
 ['inputs'],'any codepoints, any composition relation and any combining classes, texts up to the stated length',
 'The tests compose two or three adjacent pairs; blocking, non-adjacent and chained compositions are unseen.',
 ['include/u5e/canonical_composition.hpp'],[('canonical_composition','canonical_composition')],['text, returned position and count'])
for i,(f,desc,fil) in enumerate([
  ('D','complete canonical decomposition, canonical ordering','normalization_form_d'),
  ('C','complete canonical decomposition, canonical ordering, canonical composition','normalization_form_c'),
  ('KD','complete compatibility decomposition, canonical ordering','normalization_form_kd'),
  ('KC','complete compatibility decomposition, canonical ordering, canonical composition','normalization_form_kc')]):
  prop('C%02d'%(25+i),'Normalization form %s of a grapheme'%f,
   'Normalizing a grapheme to form %s appends to the output exactly the result of %s over all its codepoints, and returns the number of codepoints appended.'%(f,desc),
   ['inputs'],'any codepoints with any decompositions, combining classes and composites, graphemes up to the stated length; with the lookups of this property family as contracts',
   'One or two sample graphemes are normalized in the tests.',
   ['include/u5e/%s.hpp'%fil,'include/u5e/canonical_combining_order.hpp','include/u5e/codepoint_decomposition.hpp']+(['include/u5e/canonical_composition.hpp'] if 'C' in f else []),
   [(fil,fil)],['output native_string and return value'])
prop('C29','Normalizing grapheme by grapheme normalizes the whole text',
 'Normalizing a text one grapheme after the other into one output gives the same text as normalizing it at once, for every form: no codepoint that begins a grapheme decomposes to something that reorders or composes with the grapheme before it.',
 ['inputs'],'every codepoint that can begin a grapheme, against every grapheme that can precede it',
 'It depends on all pairs of codepoints that meet at a grapheme boundary.',
 [GI,'include/u5e/normalization_form_c.hpp','include/u5e/normalization_form_kc.hpp','src/u5e/props/grapheme_cluster_break_data.hpp','src/u5e/props/canonical_composition_mapping_data.hpp'],[('boundary classes against combining classes and composites','tables')],['lookup results over all codepoints'])
prop('C30','The library keeps no mutable shared state',
 'No operation of the library writes to memory that outlives the call other than the objects passed to it, so it may be called from any number of threads without locking and gives the same answer every time. This includes hidden one-time initialisation and calls that change process-wide state.',
 ['schedules','programs'],'every function of the library and every template instantiated for its storages and encodings',
 'Tests are single threaded and see one history.',
 ['src/u5e/props','include/u5e'],[('all tables are constant; all functions are pure over their arguments','props, headers')],['stores and calls of the compiled code'])
prop('C31','Lookups work before main and need no start-up code',
 'The library needs no dynamic initialisation: its tables and version values are complete in the program image, so calls made from constructors of global objects in any translation unit give the same answers as later ones.',
 ['programs','schedules'],'every global object of the library; every order of initialisation of the client program',
 'Tests call the library from main only.',
 ['src/u5e/props','src/u5e/version.cpp'],[('constant initialisation of the tables','props')],['start-up section of the compiled objects'])
prop('C32','Run-time and compile-time versions agree',
 'The version numbers compiled into the library equal the ones in its headers, component by component, and cannot be changed at run time.',
 ['configurations'],'every component',
 'The test compares them once, through constants the compiler may fold; it does not settle immutability.',
 ['include/u5e/version.hpp','src/u5e/version.cpp'],[('constants in both places','version')],['version::compile_time, version::run_time'])
prop('C33','A codepoint behaves as the integer it holds',
 'A codepoint built or assigned from an integer or another codepoint holds exactly that value, converts back to it, and compares with codepoints and integers, in either order, exactly as the integers do; the default is U+0000. All of it is usable in constant expressions.',
 ['inputs'],'all pairs of 32-bit integers',
 'No test covers the type on its own.',
 ['include/u5e/codepoint.hpp'],[('constructors, assignment, comparison, conversion','codepoint')],['codepoint operations'])
prop('C34','Codepoint iterators work with standard algorithms',
 'The constant and mutable codepoint iterators of both encodings satisfy what standard bidirectional algorithms need: copying, assignment, iterator traits, advance, distance, next, prev and reverse iteration compile, and visit the same codepoints as hand-written stepping. No reference they hand out outlives the value it refers to.',
 ['programs','inputs'],'both encodings, const and mutable, string, view and pointer storages; texts of any codepoints up to the stated length',
 'The tests use two algorithms on one storage; dangling references show only under other compilers or optimisation levels.',
 [U8I,ES],[('iterator typedefs','utf8_iterator_base')],['compile verdict and results of standard algorithms'])
prop('C35','Every public header stands alone and links from many places',
 'Each public header compiles when included first and alone, with no warning under the compiler and flags of the build, and including all of them in several translation units of one program defines no symbol twice.',
 ['programs','configurations'],'every header; both compilers installed',
 'Each test includes what it needs in one order in one translation unit.',
 ['include/u5e'],[('include guards, inline definitions','headers')],['compiler verdict, symbol tables'])
prop('C36','Results do not depend on encoding or storage',
 'The same codepoints held as UTF-8 or UTF-32, in strings, views or plain arrays, give the same graphemes and the same normalizations, and the normalized output holds the same codepoints whichever encoding receives it.',
 ['inputs','configurations'],'all codepoints of every encoded length, texts up to the stated length, each pair of input and output kind',
 'Tests use one or two storages per function.',
 [ES,U8,'include/u5e/utf32ne.hpp',GI],[('encoding-generic templates','all headers')],['graphemes and outputs compared across kinds'])
prop('C37','Normalization only appends and leaves its input alone',
 'Every normalization keeps what the output already held, never modifies the text it reads, and returns the number of codepoints it appended, so that a text can be normalized piece by piece into one output.',
 ['inputs','histories'],'any prior output, any grapheme up to the stated length, four forms, both encodings',
 'Tests always start from an empty output and rarely look at the returned count.',
 ['include/u5e/normalization_form_c.hpp','include/u5e/normalization_form_d.hpp','include/u5e/normalization_form_kc.hpp','include/u5e/normalization_form_kd.hpp'],[('append to output','normalization_form_*')],['output before and after, return value, input buffer'])
prop('C38','Stepping from inside checked text never leaves it',
 'After the bounds check accepted a text or enforcement repaired it, the start octet of any position announces no more octets than the text has and the first octet is no continuation octet, so one step forward or read at any start octet and one step back from any position beyond the first codepoint stay inside the text.',
 ['inputs'],'all octet contents, all positions, all lengths up to the stated bound',
 'It is the safety promise of the library for untrusted text; tests sample seven literals and never step afterwards.',
 [BND,U8I,U8U],[('check, enforce','utf8_bounds'),('forward_one_codepoint, rewind_one_codepoint','utf8_iterator_base')],['memory accesses of iterators over accepted text'])
prop('C39','Normalization is idempotent over whole texts',
 'Normalizing an already normalized text of any length to the same form yields the same text.',
 ['inputs','histories'],'all texts of any length, four forms',
 'Unbounded input domain; tests never normalize twice.',
 ['include/u5e/normalization_form_c.hpp','include/u5e/normalization_form_d.hpp'],[('normalization_form_*','headers')],['output of normalizing twice'])
prop('C40','Any int held as a codepoint is processed safely',
 'A codepoint may hold any int, also one outside of Unicode or negative: looking up its properties, writing it over a position of UTF-8 text with room for six octets, appending it, splitting text that holds it in graphemes and normalizing it read and write nothing outside of the texts involved. It is stored in at most six octets, and every value from 0 to 0x7FFFFFFF is read back as it was.',
 ['inputs'],'every 32-bit int, alone and next to another',
 'Tests use assigned characters only; the interesting values are the edges of the encoded lengths and the sign.',
 [U8I,U8U,ES],[('proxyobject::operator=, operator*','utf8_iterator'),('encoded_size','utf8_util')],['octets stored, memory accesses'])
prop('C41','Graphemes and grapheme iterators are independent values',
 'A grapheme, or an iterator over graphemes, that was copied, assigned or kept in a container goes on denoting the same part of the text, whatever happens to the iterator it came from or to the view that gave it; dereferencing or walking its codepoints, forwards and backwards, changes nothing; an iterator from before a step still denotes the grapheme from before.',
 ['inputs','histories'],'all texts up to the stated length, both encodings',
 'Tests use each grapheme at once and in order.',
 ['include/u5e/basic_grapheme.hpp',GI],[('copy constructors, operator++(int), operator*','basic_grapheme_iterator')],['codepoints and edges of each grapheme, later'])
prop('C42','Reading text needs no memory and cannot fail',
 'Iterating over, seeking in and comparing positions of text, by codepoint or by grapheme, on strings and views, checking and enforcing bounds, overwriting a codepoint, filtering with an operation of the caller, and looking up properties neither allocate memory, nor throw, nor end the program.',
 ['inputs','faults'],'any octets or ints as text; any codepoints of every pair of break classes',
 'Tests have memory; an assertion or exception on a rare input shows only there.',
 ['include/u5e','src/u5e/props'],[('iterators, bounds, lookups','headers and props')],['calls to allocation, exception and termination functions'])
prop('C43','Cost grows in proportion to the text',
 'Iterating over a text by codepoint or grapheme, forwards or backwards, filtering, normalizing it grapheme by grapheme, appending and converting it, checking and enforcing bounds take a number of steps in proportion to the length of the text, as long as its graphemes are short; reading, one step, comparing positions and seeking the grapheme of a position take no longer in a longer text or further from its beginning.',
 ['inputs'],'texts of graphemes of one to three codepoints, of any length',
 'Tests use a few codepoints and measure nothing: a step that walks from the beginning of the text passes them all.',
 [GI,U8I,ES,BND],[('operator++, find_end_of_grapheme, find_start_of_grapheme','basic_grapheme_iterator'),('append, append_from_utf32ne','basic_encodedstring')],['number of steps of an operation'])
prop('C44','What fails leaves the output as it was and releases memory',
 'When memory runs out while text is appended, converted, copied, assigned or normalized, or an operation given to filter throws, the exception reaches the caller; the output then holds what it held before, followed by nothing but a beginning of what would have been appended (a copy or assignment that failed changes nothing); all memory acquired on the way is released, and doing it again with memory enough gives the whole result. Memory that the library only tries to get, as for sorting, does not change the result. With memory enough, all memory is released with the strings.',
 ['inputs','faults'],'failure of any allocation, alone or with all later ones; a throw at any call of the operation',
 'Tests never run out of memory and no operation of theirs throws.',
 [ES,'include/u5e/filter.hpp','include/u5e/normalization_form_c.hpp','include/u5e/normalization_form_d.hpp'],[('append, append_from_utf32ne, operator=','basic_encodedstring'),('filter','filter.hpp'),('normalization_form_*','headers')],['output after an exception, memory allocated'])
prop('C45','Any text the bounds check accepts can be processed to its end',
 'Whatever its octets, a text that the bounds check accepted or enforcement repaired can be walked by codepoint from its beginning to its end and back, read, stepped and compared with its end at any octet, split in graphemes, normalized to the four forms, filtered and appended: no access leaves the text, every step moves on, and every walk ends after at most as many steps as the text has octets.',
 ['inputs'],'all octet contents, accepted or repaired, up to the stated length',
 'It is what makes the check at the border of an application enough; tests check seven literals and process none of them.',
 [U8I,BND,GI],[('forward_one_codepoint, rewind_one_codepoint, current_codepoint','utf8_iterator_base'),('check, enforce','utf8_bounds'),('find_end_of_grapheme','basic_grapheme_iterator')],['memory accesses and number of steps over any accepted text'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
