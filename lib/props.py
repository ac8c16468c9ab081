"""Per-property data used by check.py for scope and evidence."""
LEVEL = {"C%02d" % i: "proof" for i in range(1, 17)}
# owners of the functions whose contracts the property's own functions rest on
SUPPORT = {
    "C01": {"C02", "C04", "C06", "C07", "C08"},
    "C02": {"C04", "C06", "C07", "C08"},
    "C03": {"C01", "C02", "C04", "C06", "C07", "C08"},
    "C04": {"C01", "C02", "C03", "C06", "C07", "C08"},
    "C05": {"C02", "C04", "C06", "C07", "C08"},
    "C06": {"C01", "C02", "C04", "C07", "C08"},
    "C07": set(),
    "C08": {"C02", "C04", "C06", "C07"},
    "C09": {"C06", "C07", "C08", "C10"},
    "C10": set(),
    "C11": {"C06", "C07", "C08", "C10"},
    "C12": {"C06", "C07", "C08", "C10", "C11", "C13"},
    "C13": {"C06", "C07", "C08", "C10", "C11", "C12"},
    "C14": {"C06", "C07", "C08", "C10", "C11", "C12", "C13"},
    "C15": {"C07", "C08", "C09", "C10"},
    "C16": {"C01", "C02", "C03", "C04", "C06", "C07", "C08"},
}
LEMMAS = {
    "C01": ["theorem meet_elements", "shim::meet_empty"],
    "C03": ["theorem complement_twice"],
    "C04": ["theorem canonical_seq"],
    "C05": ["theorem canonical_seq", "theorem union_commutes", "theorem union_associates", "theorem union_absorbs", "theorem union_merges_exactly_overlaps"],
    "C06": ["theorem overlap_symmetric", "shim::meet_empty"],
    "C15": ["idx::same_bounded", "idx::same_inclusive", "idx::same_lower", "idx::same_upper", "idx::same_empty"],
}
TRUSTED = [
    "Verus 0.2026.09.13 and Z3",
    "extraction (/verif/extract): syntactic desugarings and renamings listed in DESIGN.md",
    "contracts/shim.rs: std's VecDeque, ranges, Option/iterator adaptors behave as their verified stand-ins",
    "element types are lawfully ordered and copyable (trait Lawful); for stepping types also lawful Step; both laws are proved for all 12 integer types and char",
    "external_body: char_order (chars compare by code point), admit_vec_ext, From<[T;N]>; assume_specification char::from_u32_unchecked; usize is 64 bits",
    "derived Clone/Hash/Debug/Display, FusedIterator marker impls and the serde feature are not extracted",
]
ASSUME = {
    "C05": ["equality of element values is equality of position (Eq agrees with Ord)"],
    "C08": ["RangeInclusive is modelled without its exhausted flag (a RangeInclusive already iterated to its end is outside the property)"],
    "C15": ["std's own indexing (contracts/index.rs, trait StdIdx, external_body): returns exactly when start <= end <= length (and, for strings, both are char boundaries) and then gives that part; a panic is modelled as not returning",
            "Option::expect returns only for Some (contracts/shim.rs, ExpectP)",
            "std::ffi's CStr, CString, OsStr, OsString are modelled by their bytes"],
}
