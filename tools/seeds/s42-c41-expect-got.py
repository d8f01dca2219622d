PROPERTY = "C41"
NEEDS = "reading the text of an invalid-length error"
BREAKS = "the expected and the received length are exchanged in the error's text"
EDITS = [("ublox/src/error.rs", '''                "Invalid packet({}) length, expect {}, got {}",
                packet, expect, got''', '''                "Invalid packet({}) length, expect {}, got {}",
                packet, got, expect''')]
DEMO = '''
fn main() {
    let e = ublox::ParserError::InvalidPacketLen { packet: "P", expect: 28, got: 31 };
    let t = format!("{}", e);
    assert!(t.find("28").unwrap() < t.find("31").unwrap(), "{}", t);
    assert!(t.contains("expect 28"), "{}", t);
}
'''
