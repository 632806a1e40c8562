import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/"
p("C01","Decoding follows the registered type, element by element",
 "Decoding bytes as any registered type returns exactly the value that SCALE assigns to those bytes under that type: every struct field, tuple item, array and vector element and the enum variant selected by its index byte, in order, under the names, type names and documentation found in the registry (single-member wrappers around the elements of a vector or array are described once, for the whole collection). The position afterwards is the start position plus the exact encoded length of that value. When the bytes at the position hold an encoding of a supported type, decoding succeeds.",
 ["inputs","configurations"],"all type registries, all type ids, all byte strings, all start positions",
 "The tests decode a few dozen real transactions with five real metadata files; the claim quantifies over every registry shape (nesting, empty structs, sparse or unordered variant indices, arrays of anything) and every byte string.",
 [S+"decoding_sci.rs",S+"special_types.rs",S+"propagated.rs",S+"cards.rs"],
 [("general recursive decoder","decode_with_type in src/decoding_sci.rs"),("field, element and variant decoders","decode_fields, decode_elements_set, decode_variant, pick_variant in src/decoding_sci.rs"),("element type resolution","husk_type in src/decoding_sci.rs")],
 ["decode_as_type_at_position","decode_all_as_type"],
 [("position","next unread byte","position: &mut usize through all decoders")])
p("C02","Fixed-width values and text equal their SCALE reading",
 "Every boolean, character, integer of any width (8 to 256 bits, signed and unsigned), parts-per value, well-known hash, account id, public key, signature and text is decoded to exactly the value its SCALE encoding at the position denotes, and the position advances by exactly the encoded length. Bytes that encode no value of the type (a boolean other than 0 or 1, a surrogate or too large character, text that is not UTF-8, parts above one whole, data too short) give an error, and the position stays where it was.",
 ["inputs"],"all byte strings and positions, for each of the fixed-width kinds and text",
 "A 16-bit value alone has 65536 encodings and the wider ones cannot be enumerated; the tests look at some values of some of the types.",
 [S+"special_types.rs",S+"decoding_sci.rs"],
 [("fixed length cutting and decoding","StableLength::cut_and_decode in src/special_types.rs"),("primitives dispatch","decode_type_def_primitive, decode_str in src/decoding_sci.rs")],
 ["decode_type_def_primitive","decode_as_type_at_position"])
p("C03","Compact numbers are read exactly and canonically",
 "A compact number is found at a position if and only if the bytes there start with a canonical SCALE compact encoding of a number that fits the requested number type, whatever follows it. The returned number is the encoded one and the position after it is the start position plus the length of that encoding. When no compact is there, or the position is past the end of the data, an error is returned and the position does not move.",
 ["inputs"],"all byte strings, all positions, all compact-capable types",
 "The tests touch compacts only through the lengths found in real transactions; the four length modes, their boundaries, non-canonical encodings, truncated tails and positions at or past the end are not explored.",
 [S+"compacts.rs",S+"special_types.rs"],
 [("search of the shortest decodeable slice","find_compact in src/compacts.rs"),("position move","get_compact in src/compacts.rs")],
 ["find_compact","get_compact"])
p("C04","Bit sequences keep every bit, on 64-bit and 32-bit targets",
 "A bit sequence is decoded to exactly the number of bits announced by its length prefix, each bit being the one at that index under the registered store width (8, 16, 32, 64) and bit order, and the position moves past the whole number of store elements needed. The routine used on 32-bit targets for 64-bit stores yields the same bits and the same position as the native one.",
 ["inputs","configurations"],"all bit lengths, all contents, all eight combinations of store and order, both target widths",
 "Tests use four fixed bit vectors whose last element has its leading half non-zero; lost or shifted bits need particular lengths and contents.",
 [S+"decoding_sci.rs"],
 [("byte range of the encoded sequence","BitVecPositions::new, into_bitvec_decode in src/decoding_sci.rs"),("32-bit patch","Patched::patch_bitvec_u64, reform_vec_lsb0, reform_vec_msb0 in src/decoding_sci.rs")],
 ["decode_as_type_at_position"],None,"cfg(substrate_parser_verif) exposes the 32-bit routine on 64-bit targets")
p("C05","Transaction era decodes and encodes like the chain",
 "The one-byte and two-byte era encodings are decoded to exactly the immortal era or the period and phase that the chain derives from them, and every encoding without a valid period and phase is rejected. Encoding a decoded era gives back the same bytes. Decoding an era from transaction data moves the position by one byte for immortal and by two bytes for mortal eras.",
 ["inputs"],"all 1-byte and 2-byte strings, all surrounding data",
 "Three of 65792 encodings are tested.",
 [S+"additional_types.rs",S+"special_types.rs"],
 [("era codec","Decode and Encode for Era in src/additional_types.rs"),("era in data","special_case_era in src/special_types.rs")],
 ["Era::decode","Era::encode","decode_as_type_at_position"])
p("C06","Collections never lose, reorder or invent elements",
 "A vector or array of n elements is presented with exactly n elements in encoded order, whether it is shown as a typed collection (numbers, bytes, byte strings) or as a general list. It is shown as a typed collection of numbers or of byte strings only if every element is of that one kind and carries no special role, so nothing shown is lost by the regrouping.",
 ["inputs","configurations"],"all element types, element counts and element values, including mixtures of empty and non-empty inner byte strings",
 "Tests see a few homogeneous vectors; mixed empty and non-empty inner vectors, special roles on elements and differing inner type descriptions are not sampled.",
 [S+"special_types.rs",S+"decoding_sci.rs"],
 [("regrouping","wrap_sequence, Collectable::husk_set in src/special_types.rs"),("element loop","decode_elements_set in src/decoding_sci.rs")],
 ["decode_as_type_at_position"])
p("C07","No undecoded data is silently accepted",
 "Whole-input decoding of a typed blob, a storage value, a storage key, a call inside a marked transaction and transaction extensions succeeds only if every byte of that input was consumed by the decoded content. Any left-over byte produces an error, which for blobs, values, calls and extensions names the first unused position. Input that is exactly consumed is never rejected as having unused data.",
 ["inputs","configurations"],"all inputs and all registries, all ways to append trailing bytes",
 "Tests have only a couple of inputs with trailing data; the claim is about every input and every entry point.",
 [S+"lib.rs",S+"decoding_sci.rs",S+"decoding_sci_ext.rs",S+"storage_data.rs"],
 [("blob end check","decode_all_as_type in src/lib.rs"),("call end check","decode_as_call in src/decoding_sci.rs"),("extensions end check","decode_extensions_unmarked in src/decoding_sci_ext.rs"),("key end check","process_key_mapped in src/storage_data.rs")],
 ["decode_all_as_type","decode_as_call","decode_extensions","decode_as_storage_entry"])
p("C08","Decoding is total: no panic, no endless loop, position in range",
 "For every byte string, start position, registry and type id, decoding returns, within the stack and memory at hand, a value or an error, without panicking and without resolving types forever: a chain of types that comes back to itself without consuming data is reported as cyclic metadata. A type chain that does not come back to itself is never reported as cyclic. After success the position is not before the start and, if the start lies within the data, not beyond the end of the data.",
 ["inputs","configurations"],"all byte strings, all positions including past the end, all registries including cyclic, dangling and self-referential ones (excluding exhaustion of stack or memory)",
 "Tests use real, well-formed metadata; malformed or malicious registries and truncated data at every possible place cannot be enumerated.",
 [S+"decoding_sci.rs",S+"propagated.rs",S+"special_types.rs",S+"compacts.rs"],
 [("cycle tracker","Checker::check_id, drop_cycle_check in src/propagated.rs"),("element type resolution","husk_type in src/decoding_sci.rs")],
 ["decode_as_type_at_position","decode_all_as_type","find_compact"],
 [("cycle_check","type ids met since the position last moved","Checker in src/propagated.rs")])
p("C09","Compact encoding is accepted only where it has a meaning",
 "Inside a compact type the decoder accepts only unsigned integers up to 128 bits and parts-per values, read as a compact number, structs and tuples with a single member leading to one of those, and structs and tuples without members, which hold no data. Anything else directly inside a compact (enums, vectors, arrays, strings, booleans, characters, signed or 256-bit integers, hashes, keys, bit sequences, multi-member structs and tuples, another compact) is an error naming the compact type. The compact mode never leaks to sibling fields or to following values.",
 ["inputs","configurations"],"all registries with compact types over any inner type, at any nesting",
 "Real metadata has only compacts over plain integers; the rejection and the non-leaking need odd registries.",
 [S+"propagated.rs",S+"special_types.rs",S+"decoding_sci.rs"],
 [("compact flag","SpecialtySet::reject_compact in src/propagated.rs"),("compact-capable leaves","impl_allow_compact, impl_block_compact, impl_unsigned_integer in src/special_types.rs")],
 ["decode_as_type_at_position"],
 [("compact_at","id of the enclosing compact type","SpecialtySet in src/propagated.rs")])
p("C10","Balance, tip, nonce and version labels follow the metadata",
 "A decoded number, text or hash carries a special role (balance, tip, asset tip, nonce, spec version, transaction version, spec name, genesis hash, block hash) exactly when the extension identifier, or the field name or type name on the chain of single-member wrappers leading to it (for tuple members, the name of the member's type), designates that role; the outermost designation wins. A role never changes the decoded value or the amount of data read, and it does not carry over to the members of multi-member structs, to enum contents, or to elements of vectors and arrays; only the asset tip designation persists through multi-member types.",
 ["inputs","configurations"],"all field names, type names, extension identifiers and type nestings",
 "Tests cover the labels that occur in a few real calls; precedence, propagation through nested wrappers and forgetting at multi-member types need constructed registries.",
 [S+"special_indicators.rs",S+"propagated.rs",S+"decoding_sci.rs"],
 [("role designation","Hint::from_field, from_ext_meta, from_path in src/special_indicators.rs"),("role application","Hint::unsigned_integer, string, hash256 in src/special_indicators.rs"),("propagation","Checker::update_for_field, update_for_ty, forget_hint in src/propagated.rs")],
 ["decode_as_type_at_position","decode_extensions"],
 [("hint","role designated so far","SpecialtySet in src/propagated.rs")])
p("C11","Well-known types and calls are recognized only by their full pattern",
 "A type is decoded as a well-known type (account id, era, hashes, parts-per values, public keys, signatures) exactly when its registered path says so, keys and signatures also requiring the matching namespace. Data is presented as a pallet call or event exactly when the type is an enum named as call or event whose selected variant has a single field of an enum type named likewise, and a multi-signature is presented as a concrete signature exactly when the selected variant has a single field whose type name designates that signature and whose type, through single-member wrappers that are no well-known types, is a byte array of its length. Otherwise the data is decoded by its plain type definition.",
 ["inputs","configurations"],"all type paths, all variant shapes, all selected variants",
 "Real metadata matches the patterns; near misses (wrong namespace, wrong array length, two fields, event inside call) are not tested.",
 [S+"special_indicators.rs",S+"decoding_sci.rs"],
 [("recognition","SpecialtyTypeHinted::from_type, SpecialtyTypeChecked::from_type, SignatureIndicator::from_field in src/special_indicators.rs"),("call entry","decode_as_call_unmarked in src/decoding_sci.rs")],
 ["decode_as_type_at_position","decode_as_call"])
p("C12","Marked transactions split exactly at the announced call length",
 "A signable transaction with a length-prefixed call is split into the call, starting right after the length prefix and having exactly the announced length, and the extensions, which are all the rest; an announced length that exceeds the data is an error. Decoding the call never reads or interprets a byte beyond the announced end, and decoding the extensions starts exactly at that end.",
 ["inputs"],"all byte strings",
 "Tests use correctly prefixed transactions; wrong prefixes and calls that would decode further into the extensions are not tested.",
 [S+"lib.rs",S+"decoding_sci.rs",S+"decoding_sci_ext.rs"],
 [("splitting","MarkedData::mark, data_no_extensions, call_start, extensions_start in src/lib.rs"),("call end check","decode_as_call in src/decoding_sci.rs")],
 ["MarkedData","parse_transaction","parse_transaction_unmarked"])
p("C13","Extensions are decoded all, in signing order",
 "Decoded extensions consist of one item for each signed extension of the metadata decoded as its included type, in metadata order, followed by one item for each signed extension decoded as its additionally signed type, in the same order. Each is decoded from the bytes right after the previous one, under the role designated by its own identifier.",
 ["inputs","configurations"],"all signed extension lists and all extension bytes",
 "Tests use the extension lists of five real chains.",
 [S+"decoding_sci_ext.rs"],
 [("two passes","decode_extensions_unmarked in src/decoding_sci_ext.rs")],
 ["decode_extensions","decode_extensions_unmarked"])
p("C14","A transaction for another chain or runtime is refused",
 "Extensions are accepted only if they contain exactly one spec version, equal to the one printed in the metadata, and exactly one genesis hash, equal to the known genesis hash whenever that is provided, and at most one era and at most one block hash; with an immortal era and a block hash present, the block hash must equal the genesis hash. Every violation of these rules is reported as an error, and extensions that satisfy them all are accepted.",
 ["inputs","configurations"],"all extension contents, all extension sets, any provided or absent genesis hash",
 "Each rule is tested with one or two transactions; combinations (duplicates inside single-field structs, numeric versions of other widths, era before or after the hashes) are not.",
 [S+"decoding_sci_ext.rs"],
 [("collection and checks","check_extensions, CollectedExt in src/decoding_sci_ext.rs")],
 ["decode_extensions","parse_transaction"])
p("C15","Storage keys are accepted only when hashes and layout agree",
 "A plain entry is accepted only for a key of exactly the two 16-byte prefixes; a map key is split after the prefixes into parts in hasher order, each hasher taking its exact hash length, and concatenating hashers having their data decoded as the part's type. A part with concatenated data is accepted only if the hash in the key is the hash of exactly the decoded bytes. Several hashers require a tuple key with the same number of elements.",
 ["inputs","configurations"],"all keys, all hasher lists, all key types",
 "Tests have a handful of keys from real chains, each for one hasher layout; corrupted hashes, wrong arity and every hasher in every place are not covered.",
 [S+"storage_data.rs"],
 [("key processing","process_key_mapped, cut_hash, check_hash in src/storage_data.rs"),("entry","decode_as_storage_entry in src/storage_data.rs")],
 ["decode_as_storage_entry","process_key_mapped"])
p("C16","Unchecked extrinsics are framed and ordered correctly",
 "An unchecked extrinsic is decoded only if its compact length prefix equals the length of the data that follows and the lower seven bits of the next byte equal the extrinsic version in the metadata. The top bit of that byte alone selects unsigned (only a call follows) or signed (address, signature, extra, call, in this order, each decoded as its type from the metadata right after the previous one). All data must be used up by the decoded parts.",
 ["inputs","configurations"],"all byte strings and all complete metadata",
 "Two extrinsics are tested, none with a wrong length, version or trailing data.",
 [S+"unchecked_extrinsic.rs"],
 [("framing and order","decode_as_unchecked_extrinsic in src/unchecked_extrinsic.rs")],
 ["decode_as_unchecked_extrinsic"])
p("C17","Spec version, spec name and extrinsic types come from the right place",
 "The spec name and version reported for V14 or V15 metadata are those in the decoded Version constant of the pallet System, and metadata without that constant, with an undecodeable one, or with one in which spec version or spec name is missing or found more than once gives an error. For V14 the address, call, signature and extra types are the ones bound to the extrinsic type parameters of those names, whatever their order, and a missing or unbound one, or an extrinsic type that is not (a wrapper around) a byte vector, is an error; V15 types are the declared ones.",
 ["configurations","inputs"],"all V14 and V15 metadata",
 "Five real metadata files are tested, all well-formed and in the usual order.",
 [S+"traits.rs"],
 [("version constant","version_constant_data_and_ty_v14/v15, spec_name_version_from_runtime_version_data in src/traits.rs"),("extrinsic parameters","process_extrinsic_type_params and AsCompleteMetadata implementations in src/traits.rs")],
 ["AsMetadata::spec_name_version","AsMetadata::call_ty","AsCompleteMetadata::extrinsic_type_params"])
p("C18","Printed balances are numerically exact",
 "For every unsigned value up to 128 bits, every number of decimals and every unit name, the printed number multiplied by the power of ten of its printed unit prefix equals the value divided by ten to the decimals, with no digit rounded, dropped or invented, and formatting never panics. The unit name is kept after the prefix.",
 ["inputs"],"all u8, u16, u32, u64 and u128 values, all 256 decimals, all unit names",
 "Tests list a set of values and decimals; there are 2^128 values and 256 decimals, and each combination of digit count and decimals takes its own path.",
 [S+"printing_balance.rs"],
 [("number cutting","convert_balance_string, assist in src/printing_balance.rs")],
 ["AsBalance::convert_balance_pretty","ExtendedData::card"])
p("C19","Cards show every decoded value once, in order, at its depth",
 "Turning decoded data into flat cards yields, in data order, a card for every decoded leaf value with that value, and the announcing cards with the true counts, names and variant names of the enclosing structs, tuples, enums, collections, calls and events. Indentation is the given start indentation plus the nesting depth of announcing cards, and a value is shown as a formatted balance exactly if it is a tip, or has the balance role inside a call or event of a pallet known to hold chain currency or in extensions.",
 ["inputs"],"all decoded data trees, indentations, chain specs",
 "Tests compare the printed cards of some transactions; nested shapes such as unnamed single fields in enums in tuples, or balances under other pallets, are sampled only where real calls have them.",
 [S+"cards.rs",S+"lib.rs"],
 [("flattening","ParsedData::card, ExtendedData::card, PalletSpecificData::card, card_field_set, card_unnamed_single_field in src/cards.rs")],
 ["ExtendedData::card","Call::card","TransactionParsed::card"])
p("C20","Where the bytes live does not matter, and read faults surface",
 "Decoding data and types held in external memory gives the same result as decoding the same bytes and types from RAM, for every page layout and length of the buffer. If a read from external memory fails, the call returns an error or the very same result as without the fault; it never panics and never presents other content.",
 ["inputs","fault_sequences"],"all data, all buffer implementations honouring their contract, a fault at any one read or at all reads from some point on",
 "The tests read from RAM and from a fault-free test memory only.",
 [S+"decoding_sci.rs",S+"special_types.rs",S+"storage_data.rs",S+"compacts.rs",S+"special_indicators.rs"],
 [("all reads through the buffer trait","read_slice and read_byte calls in src/"),("error propagation","error types in src/error.rs")],
 ["decode_as_type_at_position","decode_as_storage_entry","parse_transaction"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,x['id']
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
