PROPERTY = 'C17'
NEEDS = 'a three-byte array field of a builder whose bytes are not a palindrome'
BREAKS = 'builders store three-byte array fields in reverse order, so what is read back differs'
EDITS = [('ublox_derive/src/output.rs', '        for i in 0..size_bytes {\n            let byte_off = off.checked_add(i).unwrap();\n            pack_fields.push(quote! {\n                ret[#byte_off] = bytes[#i]', '        for i in 0..size_bytes {\n            let byte_off = if f.is_field_raw_ty_byte_array() && size_bytes == 3 {\n                off + size_bytes - 1 - i\n            } else {\n                off.checked_add(i).unwrap()\n            };\n            pack_fields.push(quote! {\n                ret[#byte_off] = bytes[#i]')]
DEMO = r'''

fn main() {
    let b = ublox::CfgNav5Builder::default();
    let _ = b;
    let b = ublox::CfgNavX5Builder { reserved9: [1, 2, 3], ..Default::default() };
    let x = b.into_packet_bytes();
    let v = x.windows(3).any(|w| w == [1, 2, 3]);
    assert!(v, "{:?}", x);
}
'''
