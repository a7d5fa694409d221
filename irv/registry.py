"""Which contracts (driver translation units) decide which property."""
import os, glob
from .build import REPO
def _g(pat): return sorted(os.path.relpath(f, REPO + '/src') for f in glob.glob(os.path.join(REPO, 'src', pat)))
EXC = 'mfast/exceptions.cpp'
OSB = 'mfast/coder/encoder/fast_ostreambuf.cpp'
CORE = _g('mfast/*.cpp') + _g('mfast/instructions/*.cpp')
WIRE = {r'fast_istream::decode<%s, %s>' % (t, n): 'wire_' + f if n == 'bool' else 'wire_%s_%s' % (f, n[-5:].strip(', >')) for t, f in (('short', 'i16'), ('int', 'i32'), ('unsigned int', 'u32'), ('long', 'i64'), ('unsigned long', 'u64')) for n in ('bool',)}
WIRE.update({r'fast_istream::decode<bool>\(char const\*&, unsigned int&, mfast::ascii': 'wire_ascii', r'fast_istream::decode<bool>\(char const\*&, unsigned int&, mfast::unicode': 'wire_unicode', r'fast_istream::decode<bool>\(unsigned char const\*&': 'wire_bytevec'})
LIB = {r'unsigned char\* std::copy<char const\*, unsigned char\*>': 'lib_copy_cu'}
VEC = {r'vector_mref_base<char>::reserve\(': 'vec_reserve_c', r'vector_mref_base<char>::resize\(': 'vec_resize_c', r'vector_mref_base<unsigned char>::reserve\(': 'vec_reserve_u', r'vector_mref_base<unsigned char>::resize\(': 'vec_resize_u',
 r'vector_mref_base<mfast::utf8_char>::reserve\(': 'vec_reserve_8', r'vector_mref_base<mfast::utf8_char>::resize\(': 'vec_resize_8'}
for _c, _t in (('c', 'char'), ('u', 'unsigned char')):
    _p, _r = _t + r' const\*', r'std::reverse_iterator<%s const\*>' % _t
    for _n, _x in ((3, ''), (4, ', %s')):
        LIB[r'std::mismatch<%s, %s>\(%s, %s, %s%s\)' % (_p, _p, _p, _p, _p, _x and _x % _p)] = 'lib_mismatch%d_%s' % (_n, _c)
        LIB[r'std::mismatch<%s, %s ?>\(%s ?, %s ?, %s ?%s\)' % (_r, _r, _r, _r, _r, _x and _x % _r + ' ?')] = 'lib_rmismatch%d_%s' % (_n, _c)
DEC1 = CORE + ['mfast/coder/decoder/decoder_field_operator.cpp','mfast/coder/decoder/fast_istream.cpp','mfast/coder/decoder/decoder_presence_map.cpp']
FEED = {k: v.replace('wire_', 'feed_') for k, v in WIRE.items()}
ENC = {r'fast_ostream::encode<%s, bool>\(' % t: 'enc_' + f for t, f in (('short', 'i16'), ('int', 'i32'), ('unsigned int', 'u32'), ('long', 'i64'), ('unsigned long', 'u64'))}
ENC.update({r'fast_ostream::encode<bool>\(char const\*, unsigned int, mfast::ascii': 'enc_ascii', r'fast_ostream::encode<bool>\(char const\*, unsigned int, mfast::unicode': 'enc_unicode', r'fast_ostream::encode<bool>\(unsigned char const\*': 'enc_bytevec', r'fast_ostream::encode_null': 'enc_null'})
def _v2(m, tgt):
    r = dict(m)
    for k, v in m.items():
        for b in ('true', 'false'):
            t = 'std::integral_constant<bool, %s>' % b
            if 'encode_null' in k: continue
            k2 = k.replace(', bool>', ', ' + t + ' ?>').replace('<bool>', '<' + t + ' ?>')
            assert k2 != k, k
            r[k2] = v + '_' + b
    return r
V2TU = DEC1 + [OSB, 'mfast/coder/encoder_v2/fast_encoder_core.cpp', 'mfast/coder/common/dictionary_builder.cpp']
SKIP_S = r'h_vec_(delta|tail)|h_ascii_delta_(o|m0|m2|m3|m1_p0)|h_ascii_tail_.[23]|h_uni_none_.[023]|h_uni_delta_[mo][12]|h_uni_delta_o[03]'
# lockstep string harnesses too slow for the quick check: explored with at most 2 iterations of every loop there, proved (as far as the time goes) in the thorough one
BOUND_S = (r'h_(ascii|uni|vec)_tail_[mo]_(undef|prev_own)$|h_(ascii|uni|vec)_delta_[mo]_(undef|prev_own)$', 2)
SKIP_T = r'h_(ascii|uni|vec)_tail_[mo]_(empty|empty_own|undef_own)$|h_(ascii|uni|vec)_delta_[mo]_undef_own$'
FILL = {r'void std::fill<unsigned int\*, unsigned int>\(': 'lib_fill_4', r'void std::fill<long\*, long>\(': 'lib_fill_8'}
ENC1 = DEC1 + [OSB, 'mfast/coder/encoder/encoder_field_operator.cpp']
PROPS = {
 'C01': dict(groups=[dict(name='c01', driver='c01.cpp', tus=[EXC])],
   assumptions=['values that do not fit the type are outside the property (FAST error R4 is optional)']),
 'C02': dict(groups=[dict(name='c02', driver='c02.cpp', tus=[EXC, 'mfast/coder/encoder/fast_ostreambuf.cpp'], unroll=14)]),
 'C03': dict(groups=[dict(name='c03', driver='c03.cpp', tus=CORE + [OSB])],
   assumptions=['ASCII texts do not start with NUL unless they are the one-character text']),
 'C04': dict(groups=[dict(name='c04', driver='c04.cpp', tus=CORE + [OSB], unroll=8)]),
 'C05': dict(groups=[dict(name='c05', driver='c05.cpp', tus=[EXC, OSB], unroll=24)]),
 'C06': dict(groups=[dict(name='c06', driver='c06.cpp', tus=[EXC])]),
 'C07': dict(groups=[dict(name='c07', driver='c07.cpp', tus=[EXC, OSB])]),
 'C08': dict(groups=[dict(name='c08', driver='c08.cpp', tus=DEC1, stubs=WIRE), dict(name='c08s', driver='c08s.cpp', tus=DEC1, stubs=dict(FEED, **VEC, **LIB), skip_quick=SKIP_S)],
   assumptions=['contracts of fast_istream::decode over a sequence of typed wire entities (what an entity denotes is C01, C03, C04)', 'contracts of vector_mref_base::reserve/resize (discharged in C12); std::copy and std::mismatch replaced by their standard contracts', 'string lengths below 2^29; ASCII texts of 7-bit characters that do not start with NUL unless they are one character long', 'sequence of messages: by induction over fields, each from an arbitrary dictionary entry']),
 'C09': dict(note='proved for all inputs; tail and delta of strings against an assigned previous value: quick tier bounded (2 iterations per loop), never counted as proved', groups=[dict(name='c09', driver='c09.cpp', tus=ENC1, stubs=dict(FEED, **ENC)), dict(name='c09s', driver='c09s.cpp', tus=ENC1, stubs=dict(FEED, **ENC, **VEC, **LIB), bounded_quick=BOUND_S, skip_quick=SKIP_T)],
   assumptions=['contracts of fast_istream::decode over a sequence of typed wire entities (what an entity denotes is C01, C03, C04)', 'contracts of fast_ostream::encode over the same sequence (that written entities denote their value is C02, C03, C04)', 'contracts of vector_mref_base::reserve/resize (discharged in C12); std::copy and std::mismatch replaced by their standard contracts', 'string lengths below 2^29; ASCII texts of 7-bit characters that do not start with NUL unless they are one character long', 'the encoder may refuse (D5/D6 conditions) where a field has no encoding; tail values are not shorter than the base value; decimal exponents within -63..63 (with delta: differences that fit)', 'string tail and delta operators with a previous value: in the quick tier bounded to 2 iterations of each loop, not proved']),
 'C10': dict(groups=[dict(name='c10', driver='c10.cpp', tus=V2TU, stubs=_v2(WIRE, 0)), dict(name='c10s', driver='c10s.cpp', tus=V2TU, stubs=dict(_v2(FEED, 0), **VEC, **LIB), skip_quick=SKIP_S)],
   assumptions=['contracts of fast_istream::decode over a sequence of typed wire entities (what an entity denotes is C01, C03, C04)', 'contracts of vector_mref_base::reserve/resize (discharged in C12); std::copy and std::mismatch replaced by their standard contracts', 'string lengths below 2^29; ASCII texts of 7-bit characters that do not start with NUL unless they are one character long']),
 'C11': dict(note='as C09; two known findings (absent optional default fields of the v2 encoder) are listed and excluded', groups=[dict(name='c11', driver='c11.cpp', tus=V2TU, stubs=_v2(dict(FEED, **ENC), 0)), dict(name='c11s', driver='c11s.cpp', tus=V2TU, stubs=dict(_v2(dict(FEED, **ENC), 0), **VEC, **LIB), bounded_quick=BOUND_S, skip_quick=SKIP_T)],
   assumptions=['contracts of fast_istream::decode over a sequence of typed wire entities (what an entity denotes is C01, C03, C04)', 'contracts of fast_ostream::encode over the same sequence (that written entities denote their value is C02, C03, C04)', 'contracts of vector_mref_base::reserve/resize (discharged in C12); std::copy and std::mismatch replaced by their standard contracts', 'string lengths below 2^29; ASCII texts of 7-bit characters that do not start with NUL unless they are one character long', 'as for C09', 'string tail and delta operators with a previous value: in the quick tier bounded to 2 iterations of each loop, not proved']),
 'C15': dict(note='proved for all inputs; sequences bounded to two elements, groups instantiated with two fields', groups=[dict(name='c15', driver='c15.cpp', tus=CORE, unroll=8)],
   assumptions=['lengths below 2^24 elements', 'groups, templates and sequences are instantiated with two fields (optional uint32, ASCII); sequences with 0, 1, 2 elements (bounded)']),
 'C19': dict(note='proved for all inputs; groups instantiated with two fields, sequences not covered', groups=[dict(name='c19', driver='c19.cpp', tus=CORE, unroll=8), dict(name='c14', driver='c14.cpp', tus=CORE, unroll=8, prefix='k_')],
   assumptions=['lengths below 2^24 elements', 'groups: instantiated with two fields (optional uint32, ASCII); sequences are not covered']),
 'C14': dict(note='proved for all inputs; decimal normalisation bounded', groups=[dict(name='c14', driver='c14.cpp', tus=CORE, unroll=8)],
   assumptions=['the number-preserving property of decimal normalisation is bounded: |d| < 100, at most 4 trailing zeros']),
 'C13': dict(note='proved for all inputs; reset and destruction bounded to two chunks per list', groups=[dict(name='c13', driver='c13.cpp', tus=['mfast/arena_allocator.cpp', 'mfast/malloc_allocator.cpp', 'mfast/allocator.cpp'], unroll=8)],
   assumptions=['requests below 2^31 bytes', 'reset and destruction: at most two chunks per list (bounded)', 'the heap allocator relies on the model of malloc/realloc']),
 'C12': dict(note='proved for all inputs; insert/replace for some element types only in the thorough tier', groups=[dict(name='c12', driver='c12.cpp', tus=CORE, stubs=FILL, skip_quick=r'h_(replace|insert_n|insert_range)._(i64|uni|bytes)|h_append_uni|h_replace._u32|h_replace[12]_ascii|h_replace0_ascii_own')],
   assumptions=['std::fill replaced by its standard contract', 'any allocator that keeps the contract stated in the driver (any_alloc; C13 shows it for the allocators of the library)', 'lengths below 2^25 elements']),
}
NA = {
 'C16': 'whole messages run through Boost containers (unordered_map, ptr_map), virtual visitors over instruction trees of unbounded depth and heap-built template tables; no contract over that object graph is within reach of the VC generator. Its field-level content is decided by C08-C11, its segment maps by C05',
 'C17': 'the sharing of previous values is computed by string-keyed std::map/std::deque code of the dictionary builder (libstdc++ red-black trees, Boost), which the VC generator cannot take as contracts without modelling the containers by hand - a model, not the code',
 'C18': 'needs an invariant over an unbounded array of value slots each owning memory (a quantified ownership predicate), which the assertion language here (watched elements) cannot express; the element copy/release contracts are C15',
 'C20': 'the JSON reader and writer are iostream and Boost.Spirit code; the obligations would rest on hand-written contracts for all of iostream',
 'C21': 'an oracle for every XML document needs a contract for the tinyxml2 parser and recursive std::map/std::string builders; out of reach of the VC generator',
 'C22': 'the product is generated source text: deciding it needs the semantics of the emitted C++ for every template definition, which no contract on the emitter functions expresses',
 'C23': 'depends on the SQLite engine, which is not in the repository and is not built here',
}
