#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
D='src/mfast/coder/decoder/'; E='src/mfast/coder/encoder/'; C='src/mfast/coder/common/'; M='src/mfast/'; I='src/mfast/instructions/'
D2='src/mfast/coder/decoder_v2/'; E2='src/mfast/coder/encoder_v2/'

prop('C01','Integer entities decode to exactly the value they denote',
 'Reading a stop-bit encoded integer (signed or unsigned, 16 to 64 bits, mandatory or nullable) consumes exactly the bytes up to and including the first byte whose top bit is set, and yields exactly the value those 7-bit groups denote - two\'s complement for signed types, minus one for non-negative nullable values - whenever that value fits the type. A nullable entity is reported as NULL exactly when the groups denote zero. An entity that is not terminated inside the input is a reported decoding error that leaves nothing read outside the input.',
 ['inputs'],'every input buffer of every length and content, every integer width, both presence forms, including redundant leading groups of any number',
 'Tests decode a few dozen fixed byte strings; the byte string space (and the overlong encodings) is unbounded.',
 [D+'fast_istream.h',D+'fast_istreambuf.h'],[('stop-bit loop','fast_istream::decode<T,Nullable>'),('nullable adjustment','detail::to_nullable_value')],['value, null flag and remaining input after a decode'])
prop('C02','Integer encoding is minimal and decodes back to the same value',
 'For every integer value of every supported width, mandatory or nullable, and for NULL, encoding emits a stop-bit encoded entity that denotes exactly that value, has the stop bit on its last byte only, and is the shortest such entity. It appends exactly those bytes and leaves every previously written byte unchanged, or reports a buffer overflow.',
 ['inputs'],'all 2^16..2^64 values of each width, all output positions and capacities',
 'Tests encode a handful of boundary constants per type; the value space is 2^64.',
 [E+'fast_ostream.h',E+'fast_ostreambuf.h'],[('group split loop, sign padding, max-value literals','fast_ostream::encode<IntType,Nullable>, detail::encode_max_value')],['bytes appended to the output'])
prop('C03','ASCII string entities: decode what the bytes denote, encode what decodes back',
 'Encoding any ASCII string (7-bit characters, not starting with NUL unless it is the one-character string) in mandatory or nullable form and decoding it again yields the same string, the empty string and NULL included, and encoding stores exactly the entity bytes. Decoding consumes exactly the bytes up to the first stop bit and returns exactly their 7-bit characters; malformed preambles and unterminated entities are reported as errors, never read past the end of the input.',
 ['inputs'],'all strings of any length, all input buffers of any length and content',
 'Tests use short literal strings; lengths and truncated inputs are unbounded.',
 [D+'fast_istream.h',D+'fast_istreambuf.h',E+'fast_ostream.h',D+'fast_istream_extractor.h'],[('entity length scan','fast_istreambuf::get_entity_length'),('NUL/empty/NULL special cases','fast_istream::decode(ascii), fast_ostream::encode(ascii)')],['decoded pointer/length, bytes appended'])
prop('C04','Length-prefixed strings (Unicode, byte vector) round-trip and stay in bounds',
 'Encoding a Unicode string or byte vector of any length and content, or NULL, emits its length followed by exactly its bytes, and decoding returns exactly those bytes or NULL and consumes exactly that entity. A length that exceeds the remaining input is a reported error; nothing outside the input is ever exposed or skipped over.',
 ['inputs'],'all lengths 0..2^32-1, all contents, all truncated or lying inputs',
 'Tests only decode well formed short inputs; a hostile length is never tried.',
 [D+'fast_istream.h',E+'fast_ostream.h'],[('length then bytes','fast_istream::decode(unicode/byteVector)')],['decoded pointer/length, remaining input'])
prop('C05','Presence maps deliver the same bits, in the same order, in any number',
 'A presence map written by setting any sequence of bits is read back as exactly that sequence, followed by zero bits for ever, regardless of how many bits there are and of the space reserved for it. Reading one consumes exactly its bytes up to the first stop bit, and compacting an over-reserved map moves the following message bytes without altering them.',
 ['inputs','histories'],'every sequence of bits of every length (crossing the 8-byte word boundaries of writer and the 9-byte boundaries of reader), every reservation size, both overlong settings',
 'Tests cover a few lengths and bit patterns; multi-word maps with arbitrary patterns are not sampled.',
 [D+'decoder_presence_map.h',E+'encoder_presence_map.h',E+'fast_ostreambuf.cpp',D+'fast_istream.h'],[('word by word load','decoder_presence_map::load/is_next_bit_set'),('word by word store','encoder_presence_map::set_next_bit/commit'),('compaction','fast_ostreambuf::write_bytes_at')],['bits returned, bytes written'])
prop('C06','Decoding never touches memory outside the supplied input',
 'For every byte sequence given to the decoder primitives as input - truncated, malformed or hostile - no byte outside the supplied range is read, the read position never leaves the range, and running out of input is reported as a decoding error.',
 ['inputs'],'all input buffers of every length (including empty) and content, for integers, ASCII, Unicode, byte vectors and presence maps',
 'The tests only ever decode complete, well-formed messages.',
 [D+'fast_istream.h',D+'fast_istreambuf.h',D+'decoder_presence_map.h'],[('bounds checks','fast_istreambuf::sbumpc, get_entity_length')],['memory accesses, exceptions'])
prop('C07','Encoder output stays in its buffer and is never corrupted by growth',
 'Writing to a fixed-size output buffer either appends exactly the given bytes inside the buffer or reports overflow, writing nothing outside it; writing to a growable buffer always succeeds and keeps every byte written before, in order, across any number of growths.',
 ['inputs','histories'],'all buffer sizes, fill levels, chunk lengths and contents',
 'Tests use buffers that are comfortably large.',
 [E+'fast_ostreambuf.h',E+'fast_ostreambuf.cpp',E+'resizable_fast_ostreambuf.h'],[('overflow checks','fast_ostreambuf::sputc/sputn/skip/overflow/write_bytes_at')],['buffer contents, memory accesses'])
prop('C08','Field decoding follows the FAST operator semantics exactly',
 'For every field type, operator, presence, initial value and dictionary state, decoding a field yields the value (or absence) that the FAST 1.1 operator rules prescribe for the presence bit and wire value read, updates the dictionary entry exactly as prescribed, and consumes a presence bit and a wire value exactly when prescribed. Error conditions D5, D6 and D7 are reported exactly when prescribed.',
 ['inputs','configurations','histories'],'all operators (none, constant, default, copy, increment, delta, tail) x types (integers, decimal, ASCII, Unicode, byte vector) x presence x initial value x undefined/empty/assigned previous value x wire value; by induction over fields, all message histories',
 'Tests fix one or two states per operator; the product of state, type, and wire value is not enumerable by examples.',
 [D+'decoder_field_operator.cpp',C+'codec_helper.h',D+'fast_istream_extractor.h',M+'int_ref.h',M+'decimal_ref.h',M+'string_ref.h',M+'vector_ref.h'],[('operator classes','decoder_detail::*_operator'),('dictionary access','detail::codec_helper')],['field value, dictionary entry, bits and bytes consumed, exception code'],[('previous value','undefined / empty / assigned dictionary entry','value_storage of the instruction')])
prop('C09','Encoder and decoder agree on every field and stay in dictionary lockstep',
 'If an encoder and a decoder start with equal dictionary entries, then encoding any field value the field can represent and decoding the result gives back the same value or absence, and leaves both dictionary entries equal and both sides having used the same presence bits and wire values.',
 ['inputs','configurations','histories'],'all operators x types x presence x initial values x dictionary states x field values; equality of the states makes it inductive over whole message histories',
 'Round-trip tests start from fresh dictionaries and a few values; drift only shows after particular histories.',
 [E+'encoder_field_operator.cpp',D+'decoder_field_operator.cpp',C+'codec_helper.h',E+'fast_ostream_inserter.h'],[('operator classes','encoder_detail::*_operator / decoder_detail::*_operator')],['decoded value, both dictionary entries'])
prop('C10','The second-generation decoder applies the same operator semantics',
 'For every field type, operator, presence, initial value and dictionary state, the compile-time specialised decoder yields the value, dictionary entry, consumption and error prescribed by the FAST 1.1 operator rules, i.e. the same as the table-driven decoder.',
 ['inputs','configurations','histories'],'as for the table driven decoder, over every specialisation',
 'Only a few instantiations are exercised, each on one or two states.',
 [D2+'fast_decoder_core.h',D2+'fast_istream_extractor.h'],[('decode_field specialisations','fast_decoder_core.h')],['field value, dictionary entry, consumption, exception code'])
prop('C11','The second-generation encoder stays in lockstep with the decoder',
 'Encoding any representable field value with the compile-time specialised encoder and decoding the result from an equal dictionary entry gives back the same value or absence and equal dictionary entries.',
 ['inputs','configurations','histories'],'all operators x types x presence x initial values x dictionary states x values',
 'Only a few instantiations and states are exercised.',
 [E2+'fast_encoder_core.h',E2+'fast_ostream_inserter.h'],[('encode_field specialisations','fast_encoder_core.h')],['decoded value, both dictionary entries'])
prop('C12','String and vector fields behave as value sequences',
 'Assigning, appending, inserting, erasing, replacing, resizing and clearing a string, byte-vector or integer-vector field has exactly the effect of the same operation on an abstract sequence of its elements, whatever its current length, capacity and ownership, and never touches memory outside its storage. Borrowed content is copied before it is modified and the lender\'s bytes never change.',
 ['inputs','histories'],'all contents, lengths, capacities and argument positions for each operation, hence all operation sequences by induction',
 'Tests perform short fixed sequences; capacity-boundary cases (exactly full buffers) are unlikely to be sampled and silent without a sanitizer.',
 [M+'vector_ref.h',M+'string_ref.h',M+'value_storage.h'],[('reserve/resize/insert/shift','vector_mref_base')],['field contents, memory accesses'])
prop('C13','Allocators hand out disjoint, aligned, stable memory',
 'Each block obtained from the arena or heap allocator has the requested size, is suitably aligned and overlaps no other live block; growing a block preserves its previous contents; after a reset the arena may reuse memory but still never hands out overlapping blocks.',
 ['inputs','histories'],'all request sizes and all sequences of allocate/reallocate/reset',
 'Chunk-boundary behaviour depends on the exact history of sizes; tests sample a few.',
 [M+'arena_allocator.h',M+'arena_allocator.cpp',M+'allocator.cpp',M+'malloc_allocator.cpp',M+'allocator_utils.h'],[('bump pointer in chunk list','arena_allocator::allocate/reallocate/reset')],['returned pointers, contents'],[('chunk lists','full and current chunk lists','arena_allocator')])
prop('C14','Scalar field references read back exactly what was written',
 'Setting a numeric, decimal, boolean, enumeration or set field, omitting an optional one, restoring the initial value, and copying from another field give a field whose presence and value are exactly those assigned, for every value of the type; fields of a mandatory kind are always present.',
 ['inputs','histories'],'all values of every width, both presences, all prior states',
 'Tests assign a few literals.',
 [M+'int_ref.h',M+'decimal_ref.h',M+'enum_ref.h',M+'set_ref.h',M+'field_ref.h',M+'value_storage.h'],[('typed accessors','int_mref, decimal_mref, enum_mref, set_mref')],['value()/present() after an operation'])
prop('C15','Copying a message or group field yields an equal, independent value',
 'Copy-constructing the stored value of any field type produces a value equal to the source that shares no mutable storage with it, and destroying a value releases exactly what it owns, once.',
 ['inputs'],'all field types, lengths and contents',
 'Aliasing and double release are only visible for particular contents/ownership combinations.',
 [I+'field_instruction.cpp',I+'group_instruction.cpp',I+'sequence_instruction.cpp',I+'string_instructions.cpp',I+'vector_instruction_base.cpp',I+'byte_vector_instruction.cpp'],[('copy_construct_value/destruct_value','field instructions')],['copied value, live allocations'])
prop('C16','Message encode/decode is inverse over whole message histories',
 'For every template set and every sequence of messages, decoding the encoder\'s output yields the same messages - template identification, groups, sequences, nested and dynamic template references and segment presence maps included - and consumes exactly the bytes produced.',
 ['inputs','histories','configurations'],'all templates, message values and message sequences, with and without forced reset',
 'Tests round-trip some dozens of fixed messages.',
 [D+'fast_decoder.cpp',E+'fast_encoder.cpp',D2+'fast_decoder_core.h',E2+'fast_encoder_core.h',C+'template_repo.h'],[('visitors','fast_decoder_impl / fast_encoder_impl')],['decoded message'])
prop('C17','Dictionary scoping and reset follow the template definitions',
 'Fields share a previous value exactly when they name the same key in the same dictionary scope, and a reset returns every such entry to undefined.',
 ['configurations','histories'],'all template sets and reset points',
 'Tests load a few template sets.',
 [C+'dictionary_builder.h',C+'dictionary_builder.cpp',C+'template_repo.h'],[('key to instruction maps','dictionary_builder'),('reset list','template_repo_base::reset_dictionary')],['previous values after a message'])
prop('C18','Sequence fields behave as resizable arrays of elements',
 'Resizing, reserving and clearing a sequence preserves the retained elements in order, gives every newly exposed element a freshly constructed value, releases every discarded element, and reports exactly the new length.',
 ['inputs','histories'],'all lengths and capacities',
 'Tests resize a few short sequences.',
 [M+'sequence_ref.h',M+'sequence_ref.cpp',I+'sequence_instruction.cpp'],[('resize/reserve','make_sequence_mref, sequence_field_instruction')],['element values, length'])
prop('C19','Field comparison is equality of presence and value',
 'Comparing two field references of the same type reports equal exactly when both are absent or both are present with equal values, and ordering comparisons of strings and numbers agree with the ordering of the underlying values.',
 ['inputs'],'all pairs of values',
 'Tests compare a few pairs.',
 [M+'field_comparator.h',M+'int_ref.h',M+'decimal_ref.h',M+'vector_ref.h',M+'string_ref.h'],[('comparison operators','field references')],['result of ==, <, ...'])
prop('C20','JSON text round-trips messages',
 'Writing a message as JSON and reading the text back yields the same message for every field content, and malformed JSON is reported without damage.',
 ['inputs'],'all messages and all texts',
 'Tests cover a few literals.',
 [M+'json/json_encode.cpp',M+'json/json_decode.cpp'],[('visitor encoder, recursive decoder','json')],['text, decoded message'])
prop('C21','Template definitions in XML are translated faithfully',
 'Loading a template definition produces instructions with exactly the names, identifiers, operators, presence, initial values and structure the definition states, or reports the prescribed static error.',
 ['inputs'],'all XML documents',
 'Tests load a few documents.',
 [M+'xml_parser/field_builder.cpp',M+'xml_parser/templates_builder.cpp',M+'xml_parser/field_op.cpp'],[('builder visitors','xml_parser')],['instruction tree'])
prop('C22','Generated C++ accessors match the template definition',
 'Code generated from a template definition declares, for every field, an accessor bound to that field, and instructions identical to those the run-time loader builds.',
 ['inputs','programs'],'all template definitions',
 'Tests compile a few definitions.',
 ['src/fast_type_gen'],[('code emitters','fast_type_gen')],['generated source'])
prop('C23','Decoded messages survive conversion to and from SQL rows',
 'Storing a message through the SQLite converter and reading it back yields the same message.',
 ['inputs'],'all messages',
 'Tests cover one schema.',
 [M+'sqlite3'],[('converter','sqlite3')],['rows'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
