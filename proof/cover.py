"""Which functions carry which property."""

COVER = {}


def cover(pid, level, modules, fns, proved, rest, note, technique="contracts on the real functions, discharged by Verus; bounded search on the compiled crate for failing inputs", **kw):
    COVER[pid] = dict(level=level, modules=modules, fns=fns, proved=proved, rest=rest, note=note, technique=technique, **kw)


cover("C03", "proof", ["compacts", "error"], ["compacts:*", "error:*"],
      "find_compact finds a compact exactly when compact_at(bytes from the position) is a canonical encoding of a number that fits the type, "
      "returns that number and the position after it; get_compact moves the position exactly then",
      "nothing of the statement; the bodies of Compact<T>::decode are the codec's and enter by contract",
      "find_compact and get_compact carry the statement as postconditions, for every buffer, position and number type")
cover("C18", "proof", ["printing_balance"], ["printing_balance:*"],
      "convert_balance_string and the five AsBalance implementations: number * 10^power(prefix) == value / 10^decimals over rationals (as integers times a power of ten), unit kept, no panic",
      "nothing of the statement", "convert_balance_pretty of u8..u128 carries the statement as postcondition, for every value, decimals and unit")

ALL = ["error", "additional_types", "special_indicators", "cards", "propagated", "compacts", "special_types", "decoding_sci"]
# every module with contracts; the thorough tier verifies all of them for each property
EVERY = ["error", "printing_balance"] + ALL[1:] + ["decoding_sci_ext", "storage_data", "unchecked_extrinsic", "lib", "traits"]
# the recursive decoder takes most of the time; checks that only call it rely on C01, C08 to C11 for its contract
LENT = {("decoding_sci", "decode_with_type"): "its contract is discharged by the checks of C01, C08, C09, C10 and C11"}
LENT_CARDS = {("cards", "ParsedData::card"): "its contract is discharged by the check of C19"}
INFO = ["cards:Info::from_ty", "cards:Info::is_empty", "cards:*collect_docs"]
BITS = ["find_bit_order_ty", "BitVecPositions::new", "into_bitvec_decode", "decode_type_def_bit_sequence", "*Patched::patch_bitvec_u64", "reform_vec_*"]
DECODER = ["decode_with_type", "decode_fields", "decode_elements_set", "decode_variant", "pick_variant", "husk_type", "decode_type_def_primitive", "decode_str"]
# functions that decide the role of a value, and what is let into a compact type
CHAIN = ["propagated:*"]


def sci(*names):
    return ["decoding_sci:" + n for n in names]


cover("C01", "proof", ALL, sci(*DECODER) + ["special_types:*", "traits:*", "propagated:*", "special_indicators:*", "compacts:*"] + INFO,
      "decode_with_type and the functions it calls return exactly dec_ty(registry, bytes, position, type): the recursive definition of the value SCALE assigns, "
      "with names and documentation, and the position after it; loops and recursion without bound; an error comes only where the definition has none or a read failed",
      "the grouping of elements into typed collections enters by its own contract (C06); bodies of the codec's decode functions enter by contract",
      "every function of the decoder carries the statement as postcondition against the recursive definition dec_ty, for every registry, type and byte string", lent=LENT_CARDS)
cover("C02", "proof", ["compacts", "special_types", "decoding_sci"], sci("decode_type_def_primitive", "decode_str") + ["special_types:*", "compacts:*"],
      "every reader of a fixed-width value, hash, account, key, signature, parts-per value or text returns the value the bytes denote and moves the position by its length, "
      "or fails and leaves the position",
      "the value that fixed bytes denote is the codec's Decode, which enters by contract (trusted)",
      "the readers in special_types, decode_type_def_primitive and decode_str carry the statement as postconditions", lent=LENT)
cover("C04", "proof", ["compacts", "decoding_sci"], sci(*BITS) + ["compacts:*"],
      "decode_type_def_bit_sequence returns the announced number of bits, each at its index under store width and bit order, position past the whole elements; "
      "patch_bitvec_u64 and reform_vec_* of the 32-bit target yield bits_at::<u64> too; the functions are verified as a 64-bit and as a 32-bit target compiles them, for any size of usize",
      "BitVec::decode_all, from_vec and split_off of bitvec enter by contract; the codec's limit of 0x1fffffff bits is part of the contract, "
      "as is the length that a BitVec can have on a 32-bit target",
      "the bit sequence functions carry the statement as postconditions, the 32-bit routine included", lent=LENT)
cover("C05", "proof", ["additional_types", "special_types"], ["additional_types:*", "special_types:special_case_era"],
      "Era decode equals the chain's era_of for every byte pair, encode of a decoded era gives the same bytes, special_case_era moves the position by 1 or 2",
      "nothing of the statement",
      "Era's decode and encode and special_case_era carry the statement as postconditions and lemmas")
cover("C06", "proof", ["propagated", "special_types", "decoding_sci"], sci("decode_elements_set", "husk_type") + ["special_types:*"],
      "decode_elements_set returns n elements in order, as list or as the typed collection wrapped(elements) that holds the same values; "
      "lemma_typed_collection: a typed collection is made only of elements of one kind without a role",
      "nothing of the statement",
      "decode_elements_set, wrap_sequence and the husk_set functions carry the statement as postconditions", lent=LENT)
cover("C08", "proof", ALL, sci("*") + ["special_types:*", "propagated:*", "special_indicators:*", "compacts:*", "traits:*", "additional_types:*"] + INFO,
      "every function of the decoder terminates (decreasing data left, then types not yet on the chain), has no panicking operation, reports a chain of types that comes back to itself, "
      "and only that, as cyclic, and leaves the position between start and end of the data",
      "panics and loops inside dependencies are excluded by their contracts; stack depth is not bounded by the verifier",
      "termination measures, panic freedom and position bounds of all functions of the decoder", lent=LENT_CARDS)
cover("C09", "proof", ALL, sci(*DECODER) + ["special_types:*", "propagated:*"],
      "the decoder equals dec_ty, which refuses everything in a compact but unsigned integers up to 128 bits and parts-per values, "
      "single-member wrappers of these and empty structs and tuples; siblings and later values start without compact mode",
      "nothing of the statement",
      "propagation of the compact mode and its refusal in every branch are part of the contracts of the decoder", lent=LENT_CARDS)
cover("C10", "proof", ALL, sci(*DECODER) + ["special_types:*", "propagated:*", "special_indicators:*"],
      "role names map to roles (hint_of_*), the first designation on the chain wins, forget_hint ends roles at multi-member structs, elements and variants start without a role",
      "nothing of the statement",
      "the contracts of special_indicators, propagated and the decoder fix the role of every value", lent=LENT_CARDS)
cover("C11", "proof", ALL, sci(*DECODER) + ["special_indicators:*", "special_types:*"],
      "SpecialtyTypeHinted::from_type is exactly hinted(type) on path and namespace, SpecialtyTypeChecked::from_type exactly seen(...) on call, event and signature patterns",
      "with a failing read of external memory the pattern may be missed (known finding of C20)",
      "the recognizers of special_indicators carry the statement as postconditions, and the decoder dispatches on them by contract", lent=LENT_CARDS)
cover("C07", "proof", ["lib", "storage_data", "decoding_sci_ext", "decoding_sci"],
      ["lib:decode_all_as_type", "lib:decode_as_type_at_position", "decoding_sci:decode_as_call", "decoding_sci:decode_as_call_unmarked",
       "decoding_sci_ext:decode_extensions*", "storage_data:decode_as_storage_entry", "storage_data:process_key_mapped"],
      "decode_all_as_type, decode_as_call, decode_extensions, the storage value and the storage key succeed exactly if the decoded content ends at the end of that input, "
      "and fail with the first unused position otherwise (storage keys: with the error about the key's length)",
      "nothing of the statement",
      "the whole-input functions carry the statement as postconditions, for every input", lent=LENT)
cover("C12", "proof", ["lib", "compacts", "decoding_sci", "decoding_sci_ext"],
      ["lib:MarkedData*", "lib:parse_transaction*", "decoding_sci:decode_as_call", "decoding_sci_ext:decode_extensions", "compacts:*"],
      "MarkedData::mark splits the data as marks(bytes) says or fails; decode_as_call returns call_within(bytes, start, end), which reads the bytes up to end only; decode_extensions starts at the end of the call",
      "nothing of the statement",
      "MarkedData and its users carry the statement as postconditions, with the type invariant of MarkedData", lent=LENT)
cover("C13", "proof", ["decoding_sci_ext", "propagated"], ["decoding_sci_ext:decode_extensions*", "propagated:Propagated::from_ext_meta"],
      "decode_extensions_unmarked returns the items of the signed extensions in metadata order, then those of the additionally signed types, each right after the one before, with the role of its identifier",
      "nothing of the statement", "the two loops of decode_extensions_unmarked carry the statement as invariants", lent=LENT)
cover("C14", "proof", ["decoding_sci_ext"], ["decoding_sci_ext:check_extensions", "decoding_sci_ext:CollectedExt*"],
      "check_extensions accepts exactly the extensions that satisfy the rules, for every list of extensions, and names the rule that is broken",
      "nothing of the statement", "check_extensions and CollectedExt carry the statement as postconditions")
cover("C15", "proof", ["storage_data", "decoding_sci"], ["storage_data:*"],
      "decode_as_storage_entry and process_key_mapped return exactly key_of(metadata entry, key): prefixes, parts in hasher order, their hash lengths, the check of each concatenating hash; cut_* and check_* by contract of the hash functions",
      "the hash functions themselves (blake2, twox of sp-crypto-hashing) enter as uninterpreted functions",
      "the functions of storage_data carry the statement as postconditions", lent=LENT)
cover("C16", "proof", ["unchecked_extrinsic", "compacts"], ["unchecked_extrinsic:*"],
      "decode_as_unchecked_extrinsic accepts exactly framed extrinsics of the metadata's version and returns address, signature, extra and call, or only the call, each decoded right after the one before",
      "that all data is used up is not part of the contract (known finding C16-bytes-after-call), the bounded leg checks it",
      "decode_as_unchecked_extrinsic carries the statement as postcondition, but for bytes after the call", lent=LENT)
cover("C17", "proof", ["traits"], ["traits:*"],
      "spec_name_version and extrinsic_type_params of V14 and V15, with the functions that find the Version constant, read spec name and version in it and take the extrinsic's type parameters, return exactly what the statement says",
      "metadata of other kinds that a user implements enters by the contract of AsMetadata",
      "the metadata functions of traits carry the statement as postconditions", lent=LENT)
cover("C19", "proof", ["cards", "printing_balance", "lib"],
      ["cards:*card", "cards:seq_*", "cards:card_*", "cards:info_with_docs_only", "cards:Info::flatten", "cards:Info::from_ty", "cards:Info::is_empty", "cards:PalletSpecificData::*",
       "cards:IdData::*", "printing_balance:*", "lib:*::card"],
      "card of ParsedData, ExtendedData, Call, Event, TransactionParsed and TransactionUnmarkedParsed return exactly wanted(value, indent): a recursive definition of the cards, every leaf once and in order, "
      "announcing cards with counts, names and documentation before what they hold, each at its depth; balances by role, pallet and tip; recursion and loops without bound",
      "indentation above u32::MAX (a precondition: start indentation plus depth of the value is at most u32::MAX); the base58 text, the identicon and the hexadecimal digits of a byte string "
      "enter by the contracts of the dependencies; the text lines made from cards (show) are for the bounded leg",
      "the card functions carry the statement as postconditions against the recursive definition wanted, for every value, indentation and specs", lent=LENT)
cover("C20", "proof", [m for m in EVERY if m not in ("printing_balance",)],
      ["compacts:*", "special_types:*", "decoding_sci:*", "decoding_sci_ext:*", "storage_data:*", "unchecked_extrinsic:*", "lib:[!T]*", "traits:*",
       "special_indicators:SpecialtyTypeChecked::from_type", "special_indicators:SignatureIndicator::from_field"],
      "for every AddressableBuffer and ResolveType the outcome of each decoding function is a function of the bytes and the types alone if no read failed; a function that returns Ok had no failing read on the way "
      "(so the value is the one without the fault), but for a missed call, event or signature pattern (known finding); no function panics, whatever reads fail",
      "that an implementation of AddressableBuffer reports a failing read as an error and otherwise gives the bytes is the contract of that trait; the paged buffers of the bounded leg are such implementations",
      "postconditions of every function with access to external memory: result independent of the memory, Ok only without a failing read",
      lent=LENT_CARDS)
