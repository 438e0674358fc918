//! Independent reference model of the parts of RFC 9000 / RFC 9001 / RFC 8446 the library
//! implements. Shares no code with the library; cryptography comes from `ring`.
pub mod crypto;
pub mod frame;
pub mod packet;
pub mod varint;
