PROPERTY = "C42"
NEEDS = "comparing two checksum errors that differ only in the received checksum"
BREAKS = "errors compare by what was expected only, so different failures count as equal"
EDITS = [("ublox/src/error.rs", """#[derive(Debug, PartialEq, Eq)]
pub enum ParserError {""", """#[derive(Debug, Eq)]
pub enum ParserError {"""),
("ublox/src/error.rs", """impl fmt::Display for ParserError {
""", """impl PartialEq for ParserError {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (
                Self::InvalidChecksum { expect, got },
                Self::InvalidChecksum { expect: e, got: g },
            ) => expect == e && (got == g || got != expect),
            (
                Self::InvalidField { packet, field },
                Self::InvalidField { packet: p, field: f },
            ) => packet == p && field == f,
            (
                Self::InvalidPacketLen { packet, expect, got },
                Self::InvalidPacketLen { packet: p, expect: e, got: g },
            ) => packet == p && expect == e && got == g,
            (
                Self::OutOfMemory { required_size },
                Self::OutOfMemory { required_size: r },
            ) => required_size == r,
            _ => false,
        }
    }
}

impl fmt::Display for ParserError {
""")]
DEMO = """
use ublox::ParserError::*;
fn main() {
    assert_eq!(InvalidChecksum { expect: 1, got: 2 }, InvalidChecksum { expect: 1, got: 2 });
    assert_ne!(InvalidChecksum { expect: 1, got: 2 }, InvalidChecksum { expect: 1, got: 3 });
    assert_ne!(InvalidChecksum { expect: 1, got: 2 }, OutOfMemory { required_size: 2 });
}
"""
