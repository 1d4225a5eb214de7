#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the text has one source)"""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
A='src/asn1.cc'; H='include/crefl/asn1.h'; B='include/crefl/buf.h'
BUF=[('buffer','bytes, cursor and capacity of the serialisation buffer',B)]

prop('C01','BER identifier octets are X.690 conformant and round-trip',
 'Every identifier (any of the four classes, primitive or constructed, any tag number below 2^56) is written as exactly the identifier octets X.690 8.1.2 prescribes, in as many octets as the length function predicts, and reading them back yields the same class, form and tag number and consumes exactly those octets. A tag number that does not fit (2^56 or more) is refused by writer and reader, never truncated.',
 ['inputs'],'all class/form/tag-number triples and all identifier octet strings',
 't5 writes a dozen tags, all of class universal; the class bits and the 8- and 9-octet boundary of high tags are never exercised.',
 [A,H],[('identifier codec','crefl_asn1_ber_ident_{length,read,write}'),('high tag codec','crefl_asn1_ber_tag_{length,read,write}')],BUF,['bytes in the buffer','decoded identifier','return code and cursor'])
prop('C02','BER definite lengths are minimal, exact and round-trip',
 'Every 64-bit length is written in the X.690 8.1.3 definite form with the fewest octets, in as many octets as the length function predicts, and reads back to the same value consuming exactly those octets. The indefinite form and lengths of more than eight octets are refused.',
 ['inputs'],'all 2^64 lengths; all length octet strings',
 't5 tries seven values and only the happy path.',
 [A,H],[('length codec','crefl_asn1_ber_length_{length,read,write}')],BUF,['bytes in the buffer','decoded length','return code and cursor'])
prop('C03','BER integer contents round-trip with exact length for every value',
 'For every signed and unsigned 64-bit integer the predicted content length is the minimal number of octets for that interpretation (two\'s complement with a sign bit, or plain unsigned), the writer emits the value big-endian in exactly that many octets, and the reader returns the same value and consumes exactly them. Reading any one to eight content octets gives the big-endian (sign- or zero-extended) value; any other length is refused.',
 ['inputs'],'all 2^64 signed and unsigned values; all content strings of 0..2^64-1 claimed octets',
 't5 samples powers of two; wrong sign extension or a length wrong for one value band goes unseen.',
 [A,H],[('integer codec','crefl_asn1_ber_integer_{u64,s64}_*')],BUF,['bytes in the buffer','decoded integer','return code and cursor'])
prop('C04','Little-endian integer contents round-trip with exact length',
 'For every signed and unsigned 64-bit integer the little-endian variant predicts the minimal content length, emits exactly that many octets least significant first, and reads the same value back (sign- or zero-extended) consuming exactly them. Lengths over eight octets are refused.',
 ['inputs'],'all 2^64 signed and unsigned values; all content strings',
 'The little-endian codec has no test of its own; it is only reached through the float and prefix-integer formats.',
 [A,H],[('little-endian integer codec','crefl_le_ber_integer_{u64,s64}_*')],BUF,['bytes in the buffer','decoded integer','return code and cursor'])
prop('C05','ASN.1 REAL preserves every double bit for bit',
 'Every finite double, including subnormals, both zeros and the extremes, and both infinities, written as ASN.1 REAL reads back as the identical bit pattern; every NaN reads back as a NaN. The predicted content length is exactly the number of octets written and consumed.',
 ['inputs'],'all 2^64 double bit patterns',
 't5 checks about twenty normal values; subnormals and values whose bits happen to imitate the special case branch are not covered.',
 [A,H],[('REAL codec','crefl_asn1_ber_real_f64_*, f64_asn1_data_get')],BUF,['decoded double bit pattern','return code and cursor'])
prop('C06','ASN.1 REAL content octets follow X.690 8.5 on write and on read',
 'The octets written for a double are the canonical X.690 8.5 binary encoding (base 2, no scale factor, odd mantissa, shortest exponent and mantissa; plus zero, which crefl writes as a zero mantissa) or the 8.5.9 special-value octet for infinities, NaN and minus zero. On read, a base-2 encoding of a value a double can represent decodes to exactly that value whatever its mantissa normalisation, and an encoding the reader does not support or whose magnitude is too large is refused rather than decoded to another number.',
 ['inputs'],'all doubles on write; all content octet strings on read',
 'The tests only read back what the same code wrote, so encoder and decoder can agree on a wrong format.',
 [A,H],[('REAL codec','crefl_asn1_ber_real_f64_{read,write}*')],BUF,['bytes in the buffer','decoded double'])
prop('C07','Compressed floats (vf) preserve every double',
 'Every non-NaN double written in the variable-length float format, by either the pointer or the by-value entry point, reads back as the identical bit pattern, and every NaN reads back as a NaN of the same sign. The reader consumes exactly the octets the writer produced, at most 11.',
 ['inputs'],'all 2^64 double bit patterns',
 'rand_vf128 samples random doubles, which almost never hit subnormals, the inline ranges or the exponent-free fractions.',
 [A,H],[('vf double codec','crefl_vf_f64_{read,write}[_byval]')],BUF,['decoded double bit pattern','return code and cursor'])
prop('C08','Compressed floats (vf) preserve every single-precision float',
 'Every non-NaN float written in the variable-length float format reads back through the float reader as the identical bit pattern and every NaN as a NaN of the same sign, by either the pointer or the by-value entry point. The reader consumes exactly the octets the writer produced, at most 7.',
 ['inputs'],'all 2^32 float bit patterns',
 'The tests sample a few floats; subnormals and inline boundary values are missed.',
 [A,H],[('vf float codec','crefl_vf_f32_{read,write}[_byval]')],BUF,['decoded float bit pattern','return code and cursor'])
prop('C09','LEB128 round-trips below 2^56 and refuses everything else',
 'Every unsigned value below 2^56 is written as minimal LEB128 and reads back unchanged with exactly the written octets consumed; a value of 2^56 or more is refused by the writer with nothing written. A stream whose continuation runs past eight octets or past the end of the buffer is refused by the reader.',
 ['inputs'],'all 2^64 values and all octet strings, all buffer capacities',
 'Tests use an amply sized buffer and few values, so neither the capacity check nor an over-long stream is exercised.',
 [A,H],[('LEB128 codec','crefl_leb_u64_{read,write}[_byval]')],BUF,['bytes in the buffer','decoded integer','return code and cursor'])
prop('C10','VLU prefix integers round-trip below 2^56 and refuse everything else',
 'Every unsigned value below 2^56 is written in the minimal number of octets (seven payload bits each) with its length in the unary prefix of the first octet, and reads back unchanged with exactly those octets consumed. A value of 2^56 or more is refused by the writer, and a first octet of all ones or a truncated stream by the reader.',
 ['inputs'],'all 2^64 values and all octet strings, all buffer capacities',
 'Tests sample a few values; each of the eight widths has its own shift amounts.',
 [A,H],[('VLU codec','crefl_vlu_u64_{read,write}[_byval]')],BUF,['bytes in the buffer','decoded integer','return code and cursor'])
prop('C11','Object identifiers survive binary encoding',
 'Every object identifier with 2 to 15 components whose first is 0 or 1 with second below 40, or first is 2, and whose encoded subidentifiers stay below 2^56, is written as the X.690 8.19 subidentifiers in as many octets as predicted and reads back with the same components, consuming exactly its length. Reading never stores outside the fifteen components and never reports more components than it stored.',
 ['inputs'],'all object identifiers; all content octet strings and claimed lengths',
 't5 uses a handful of 1.x identifiers; joint-iso arcs (2.40 and up), 0.x and 1.0 arcs and over-long content are untested.',
 [A,H],[('OID codec','crefl_asn1_ber_oid_{length,read,write}')],BUF,['decoded components','bytes in the buffer','return code and cursor'])
prop('C12','Object identifier strings parse and print faithfully',
 'Parsing a dotted-decimal string of up to fifteen components below 2^56, zero included, yields those numbers, looking only at the given length of the string; malformed strings, more than fifteen components and larger numbers are refused. Printing any object identifier never writes beyond the given buffer and produces its dotted-decimal form when that fits.',
 ['inputs'],'all strings of any length; all object identifiers and buffer sizes',
 'Tests parse four well-formed strings and always print into a large buffer.',
 [A,H],[('OID text','crefl_asn1_oid_{to,from}_string')],None,['components','characters written','return code'])
prop('C13','Boolean, null and octet string contents are carried faithfully',
 'A boolean, a null and an octet string of any size written with its own predicted length reads back as the same value with the cursor moved by exactly that length; the octet string reader copies the smaller of the object length and the caller\'s room and reports the object length. A content length the type does not allow, or that runs past the end of the buffer, is refused without touching anything.',
 ['inputs'],'all values, content lengths, destination sizes and buffer states',
 't5 round-trips two strings with matching sizes; truncation, oversized lengths and non-unit booleans are untested.',
 [A,H],[('boolean codec','crefl_asn1_ber_boolean_*'),('octet string codec','crefl_asn1_ber_octets_*'),('null codec','crefl_asn1_ber_null_*')],BUF,['decoded value','bytes copied','return code and cursor'])
prop('C14','Complete tag-length-value objects have a correct header and round-trip',
 'Writing any supported value (boolean, integer, real, object identifier, octet string, null) as a complete object emits a universal, primitive identifier carrying the requested tag, a definite length equal to the number of content octets that follow, and then the content. Reading the object back returns the value and leaves the cursor immediately after it.',
 ['inputs'],'all values of each type and all tags',
 'Each type is tested for a few values; header length and content length are never compared independently.',
 [A,H],[('DER layer','crefl_asn1_der_*_{read,write}[_byval]')],BUF,['bytes in the buffer','decoded value','return code and cursor'])
prop('C15','Decoders are memory-safe on arbitrary bytes',
 'Whatever the bytes in the buffer, its size, the cursor and the claimed content length, every decoder reads only inside the buffer, writes only its output, executes no undefined operation, terminates, and leaves the cursor inside the buffer. It reports success or failure and never aborts.',
 ['inputs'],'all buffer contents, sizes, cursors and claimed lengths',
 'No test feeds malformed input to a decoder.',
 [A,B],[('all readers','crefl_asn1_ber_*_read, crefl_asn1_der_*_read, crefl_le_*_read, crefl_vf_*_read, crefl_leb_*_read, crefl_vlu_*_read'),('bounds checks','crefl_buf_read_*')],BUF,['memory accesses','cursor','return code'])
prop('C16','Encoders never write outside the buffer or disturb other bytes',
 'For every value and every buffer capacity and cursor, an encoder changes only bytes between the cursor and the end of the buffer; when it succeeds it has changed only the octets it accounts for, the cursor has advanced by exactly the predicted length, and when the object does not fit it reports failure. Content before the cursor and behind the object is never altered.',
 ['inputs'],'all values, capacities and cursors, in particular buffers that are one octet too small',
 'Tests allocate generous buffers, so overflow paths never run.',
 [A,B],[('all writers','crefl_asn1_*_write*, crefl_le_*_write*, crefl_vf_*_write*, crefl_leb_*_write*, crefl_vlu_*_write*'),('bounds checks','crefl_buf_write_*, crefl_buf_check_capacity')],BUF,['bytes in the buffer','cursor','return code'])
prop('C17','By-value and by-pointer variants of each codec are interchangeable',
 'For every input the by-value and the by-pointer variant of a codec function predict the same length, write the same octets, return the same value and status, and leave the buffer in the same state. This holds for valid and invalid input alike.',
 ['inputs'],'all values and all buffer states, for every function that has both variants',
 'Tests exercise one variant of a pair on any given value; the duplicated bodies can drift apart.',
 [A,H],[('duplicated codecs','every crefl_*_byval and its counterpart')],BUF,['bytes in the buffer','return values','cursor'])
prop('C18','Buffer primitives move exact bytes and never cross the end',
 'A checked read or write of any size transfers exactly the requested bytes (integers little-endian) and advances the cursor by that many, or returns 0 and changes nothing when fewer remain, for every size up to the largest representable. The remaining-space query always describes the rest of the buffer, and a new buffer is empty, zeroed and of the requested capacity.',
 ['inputs'],'all buffer sizes, cursors, values and requested lengths including those that overflow the address arithmetic',
 'Tests never request more than remains, nor lengths near the word size.',
 [B,'src/buf.cc'],[('checked primitives','crefl_buf_{read,write}_*'),('allocation','crefl_buf_new')],BUF,['bytes','cursor','return value'])
prop('C19','Bit-count and byte-order helpers compute their definitions for every word',
 'Leading-zero, trailing-zero and population counts return the mathematical count for every 32- and 64-bit word, zero included (the word width, the word width, and 0). The endian helpers reverse or keep the bytes as named and are their own inverse.',
 ['inputs'],'all 32-bit and 64-bit words',
 'There is no direct test; zero and the top bit are the values that go wrong.',
 ['include/crefl/bits.h','include/crefl/endian.h'],[('bit counts','clz, ctz, popcnt'),('byte order','be16/32/64, le16/32/64, bswap*')],None,['return value'])
prop('C20','A reflection database written to memory reads back identically',
 'Writing any well-formed database into a memory image of the predicted size and reading the image into a fresh database reproduces every declaration record, every name byte, the counts and the root element. The image occupies exactly the predicted size and writing is refused, without touching the destination, when it is smaller.',
 ['inputs'],'all databases: any number of declarations, any field values with in-range links, any name table',
 'Tests write and read a few small files produced by the plug-in.',
 ['src/db.cc','include/crefl/db.h','src/model.cc'],[('image writer','crefl_db_write_mem, crefl_db_size'),('image reader','crefl_db_read_mem, crefl_db_defaults')],[('database','declaration table, name table, counts, root','include/crefl/model.h')],['memory image','reloaded database'])
prop('C21','Loading an arbitrary memory image is safe and validates every link',
 'Whatever the bytes and length of the image, loading it reads only inside the image, writes only inside the database\'s own tables, and either fails or yields a database in which every link, next, attribute and name reference is in range and every name is terminated within the name table.',
 ['inputs'],'all byte strings of any length offered as an image',
 'Only well-formed images are ever loaded by the tests.',
 ['src/db.cc','include/crefl/db.h'],[('image reader','crefl_db_read_mem')],[('database','declaration table, name table, counts, root','include/crefl/model.h')],['memory accesses','return code','validated links'])
prop('C22','Adding declarations and names never disturbs or loses earlier ones',
 'Adding a declaration or a name to a database of any size returns a fresh reference holding exactly the given tag or text, with every other field zero, and leaves every previously added declaration and name unchanged, also when the tables have to grow. Table sizes always cover what has been added.',
 ['inputs','histories'],'all database states reachable by any number of additions, any name text and length',
 'Tests add few declarations; growth happens at particular sizes only.',
 ['src/model.cc','src/link.cc'],[('allocation','crefl_decl_new, crefl_name_new, crefl_db_new, crefl_db_defaults'),('index names','crefl_entry_name_new, crefl_entry_ref')],[('tables','declaration and name tables with used and allocated sizes','include/crefl/model.h')],['returned reference','table contents'])
prop('C23','List queries return exactly the matching children in order',
 'A query for the constants, fields, parameters, types, functions or sources of a node stores the matching children of that node in declaration order up to the caller\'s limit and reports the total number of matches, which may exceed the limit. Nothing beyond the limit is written, and a query on a node of another kind fails without writing.',
 ['inputs'],'all databases, child lists of any length and any limit, including absent output arrays',
 'Tests query short lists with sufficient room.',
 ['src/model.cc'],[('list fetch','_decl_array_fetch and the crefl_*_constants/_fields/_params/_decls/_types/_functions/_sources queries')],[('child list','link/next chain of declarations','include/crefl/model.h')],['result array','count','return code'])
prop('C24','Reflected struct layout equals the platform C ABI',
 'For every struct or union declaration in a database, without bit-fields and without packing or alignment attributes, built from boolean, integer, floating and pointer types, enumerations, arrays, nested structs and unions and type aliases, the reported field offsets, alignment and total width are those the x86-64 C compiler uses. The field-offset query reports each field in order followed by the total size, within the caller\'s limit.',
 ['inputs','programs'],'all aggregate types of any nesting and number of fields',
 't7 checks a handful of structs of plain integers.',
 ['src/model.cc'],[('layout rules','_pad_align, _align, _type_pad, _struct_pad, _union_pad, _array_pad, crefl_struct_fields_offsets')],[('type graph','declarations linked by link/next','include/crefl/model.h')],['offsets','widths'])
prop('C25','SHA-224 and SHA-256 equal FIPS 180-4 however the input is split',
 'For every message and every way of feeding it in pieces the digest is the FIPS 180-4 SHA-224 or SHA-256 digest of the concatenation, truncated to the right size, with padding and bit length correct at every message length. No byte outside the context and the result is written.',
 ['inputs','histories'],'all messages of any length and all sequences of update calls',
 'There is no known-answer test in the repository; the hash is used only against itself.',
 ['src/sha256.cc','include/crefl/sha256.h'],[('hash','sha224_init, sha256_init, sha256_update, sha256_final')],[('context','chaining value, partial block, byte count','include/crefl/sha256.h')],['digest'])
prop('C26','The hash map behaves as a finite map under any history',
 'After any sequence of insertions, overwrites, index accesses and erasures, looking up a key finds exactly the value last stored for it, or nothing if it was never stored or since erased, and the reported size is the number of distinct live keys. Iteration visits each live key exactly once, growth and tombstones change none of this, and no access leaves the table\'s memory.',
 ['histories','inputs'],'all operation sequences, keys, hash collisions and table capacities',
 'Tests use the map only indirectly with a few keys and never erase.',
 ['include/crefl/hashmap.h'],[('open addressing','hashmap::insert, operator[], find, erase, resize_internal, iterator')],[('table','slots, 2-bit state bitmap, used and tombstone counts','include/crefl/hashmap.h')],['lookup results','size','iteration'])
prop('C27','Linking keeps every declaration of every input with its content',
 'Merging any number of databases yields an archive whose sources are the inputs in order and in which each declaration reached from a source has the same kind, name, properties, quantity and, recursively, children and references as in the input, up to sharing of identical declarations. The merged database has only in-range links.',
 ['inputs','histories'],'all well-formed input databases, in any number and order',
 'Tests merge a few files and look at the printed dump.',
 ['src/link.cc'],[('merge','crefl_link_merge, crefl_copy_node')],[('merged database','archive root and copied declarations','src/link.cc')],['merged graph'])
prop('C28','A declaration\'s identity hash depends on exactly its content',
 'The hash of a declaration is determined by its kind, name, properties, quantity, attributes and the hashes of what it references, and not by its position, its neighbours or the database it lives in; every one of these ingredients, each child in order, is absorbed.',
 ['inputs'],'all declaration graphs',
 'Tests compare a few printed hashes.',
 ['src/link.cc'],[('node hash','crefl_hash_node_sum, crefl_node_hash')],[('index','hash and qualified name per declaration','include/crefl/link.h')],['hash'])
prop('C29','Kind and tag names are total and correct',
 'Every declaration kind and every universal ASN.1 tag number maps to its own fixed, non-null, terminated name, and every other number maps to the unknown marker, without reading outside the tables.',
 ['inputs'],'all 2^32 kind numbers and all 2^64 tag numbers',
 'Out-of-range numbers are never tried.',
 ['src/model.cc',A],[('tables','crefl_tag_name, asn1_tag_name')],None,['returned string'])
prop('C30','The compiler plug-in records the declarations the program contains',
 'Compiling a C translation unit with the plug-in produces a database that contains each struct, union, enum, typedef, function and variable of the unit with the names, types, widths and constants the compiler assigns them.',
 ['programs'],'all C translation units clang accepts',
 'The tests compile eight small units.',
 ['src/reflect.cc'],[('AST visitor','CReflVisitor')],None,['emitted database'])
prop('C31','Database files carry exactly the memory image',
 'Writing a database to a file and reading the file back gives the same result as going through a memory image, and input/output failures are reported.',
 ['inputs','fault_sequences'],'all databases and file system outcomes',
 'Tests write small files to a healthy disk.',
 ['src/db.cc','include/crefl/util.h'],[('file io','crefl_db_read_file, crefl_db_write_file, crefl_read_file, crefl_write_file')],None,['file content','return code'])
prop('C32','Declaration predicates and accessors report exactly the stored record',
 'For every declaration record each kind predicate is true for exactly its kind (the type predicate for exactly the type kinds), the accessors return the stored fields, typed references are returned only for nodes of the matching kind and otherwise the void node, and searching an intrinsic type returns the first with that width having all requested properties, or the void node. None of them modifies the database.',
 ['inputs'],'all databases and declaration records, all property sets and widths',
 'Tests call accessors on well-typed nodes of small databases only.',
 ['src/model.cc'],[('predicates and accessors','crefl_is_*, crefl_decl_*, crefl_*_type, crefl_intrinsic, crefl_constant_value, crefl_function_addr')],[('declaration record','tag, props, name, next, link, attr, quantity','include/crefl/model.h')],['return values'])
import os,sys
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p)+'\n')
