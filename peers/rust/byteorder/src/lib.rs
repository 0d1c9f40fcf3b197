//! The part of byteorder's interface that reading big-endian numbers takes:
//! the crate itself is not in the offline cache.
pub trait ByteOrder {
    fn read_u16(buf: &[u8]) -> u16;
    fn read_i16(buf: &[u8]) -> i16;
    fn read_u32(buf: &[u8]) -> u32;
    fn read_i32(buf: &[u8]) -> i32;
    fn read_u64(buf: &[u8]) -> u64;
    fn read_i64(buf: &[u8]) -> i64;
}

pub enum BigEndian {}
pub enum LittleEndian {}
pub type NetworkEndian = BigEndian;
pub type BE = BigEndian;
pub type LE = LittleEndian;

macro_rules! order {
    ($t:ty, $f:ident) => {
        impl ByteOrder for $t {
            fn read_u16(buf: &[u8]) -> u16 { u16::$f(buf[..2].try_into().unwrap()) }
            fn read_i16(buf: &[u8]) -> i16 { i16::$f(buf[..2].try_into().unwrap()) }
            fn read_u32(buf: &[u8]) -> u32 { u32::$f(buf[..4].try_into().unwrap()) }
            fn read_i32(buf: &[u8]) -> i32 { i32::$f(buf[..4].try_into().unwrap()) }
            fn read_u64(buf: &[u8]) -> u64 { u64::$f(buf[..8].try_into().unwrap()) }
            fn read_i64(buf: &[u8]) -> i64 { i64::$f(buf[..8].try_into().unwrap()) }
        }
    };
}

order!(BigEndian, from_be_bytes);
order!(LittleEndian, from_le_bytes);
