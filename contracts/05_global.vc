# token rewrites applied to every function body: calls of std functions that Verus cannot name are
# routed to stand-ins in `th` whose contracts state the documented behaviour
//@ global .starts_with(__all_x) ==> .starts_with_p(__all_x)
//@ global &[__x][..] ==> crate::th::one_byte(__x)
//@ global .split(__x) ==> .split_p(__x)
//@ global .to_string() ==> .to_string_p()
//@ global .strip_prefix(__all_x) ==> .strip_prefix_p(__all_x)
//@ global .strip_suffix(__all_x) ==> .strip_suffix_p(__all_x)
//@ global .ends_with(__all_x) ==> .ends_with_p(__all_x)
//@ global .split_at(__all_x) ==> .split_at_p(__all_x)
//@ global .split_once(__all_x) ==> .split_once_p(__all_x)
//@ global .char_indices() ==> .char_indices_p()
//@ global .parse::<usize>() ==> .parse_usize_p()
//@ global u16::from_le_bytes ==> crate::th2::u16_from_le_bytes
//@ global u16::from_be_bytes ==> crate::th2::u16_from_be_bytes
//@ global u32::from_le_bytes ==> crate::th2::u32_from_le_bytes
//@ global u32::from_be_bytes ==> crate::th2::u32_from_be_bytes
//@ global u64::from_le_bytes ==> crate::th2::u64_from_le_bytes
//@ global u64::from_be_bytes ==> crate::th2::u64_from_be_bytes
//@ global .to_le_bytes() ==> .to_le_bytes_p()
//@ global .to_be_bytes() ==> .to_be_bytes_p()
//@ global std::mem::discriminant(__all_a) == std::mem::discriminant(__all_b) ==> crate::th2::same_variant(__all_a, __all_b)
//@ global std::mem::discriminant(__all_a) != std::mem::discriminant(__all_b) ==> !crate::th2::same_variant(__all_a, __all_b)
//@ global mem::discriminant(__all_a) == mem::discriminant(__all_b) ==> crate::th2::same_variant(__all_a, __all_b)
//@ global mem::discriminant(__all_a) != mem::discriminant(__all_b) ==> !crate::th2::same_variant(__all_a, __all_b)
//@ global discriminant(__all_a) == discriminant(__all_b) ==> crate::th2::same_variant(__all_a, __all_b)
//@ global discriminant(__all_a) != discriminant(__all_b) ==> !crate::th2::same_variant(__all_a, __all_b)
