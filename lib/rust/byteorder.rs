//! Stand-in for the crate byteorder.
macro_rules! rw { ($($r:ident $w:ident $t:ty, $n:expr;)*) => {
    pub trait ByteOrder { $(fn $r(b: &[u8]) -> $t; fn $w(b: &mut [u8], v: $t);)* }
    pub enum LittleEndian {}
    pub enum BigEndian {}
    impl ByteOrder for LittleEndian { $(fn $r(b: &[u8]) -> $t { let mut a = [0u8; $n]; a.copy_from_slice(&b[..$n]); <$t>::from_le_bytes(a) } fn $w(b: &mut [u8], v: $t) { b[..$n].copy_from_slice(&v.to_le_bytes()) })* }
    impl ByteOrder for BigEndian { $(fn $r(b: &[u8]) -> $t { let mut a = [0u8; $n]; a.copy_from_slice(&b[..$n]); <$t>::from_be_bytes(a) } fn $w(b: &mut [u8], v: $t) { b[..$n].copy_from_slice(&v.to_be_bytes()) })* }
} }
rw! { read_u16 write_u16 u16, 2; read_i16 write_i16 i16, 2; read_u32 write_u32 u32, 4; read_i32 write_i32 i32, 4; read_u64 write_u64 u64, 8; read_i64 write_i64 i64, 8; read_f32 write_f32 f32, 4; read_f64 write_f64 f64, 8; }
pub type LE = LittleEndian;
pub type BE = BigEndian;
