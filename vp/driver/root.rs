#![verifier::loop_isolation(false)]
#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
#![allow(non_snake_case)]
pub mod marshalling;
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::KVPairFormat_v::*;
verus! {
pub struct K8; pub struct K16; pub struct K32; pub struct K8x2; pub struct K16x4;
impl KVTrait for K8 { type LenType = u8; type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>; type DataFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    exec fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } exec fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } }
impl KVTrait for K16 { type LenType = u16; type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>; type DataFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    exec fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } exec fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } }
impl KVTrait for K32 { type LenType = u32; type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>; type DataFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
    exec fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } exec fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } }
impl KVTrait for K8x2 { type LenType = u8; type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>; type DataFormat = UniformSizedElementSeqFormat<IntFormat<u16>>;
    exec fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } exec fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } }
impl KVTrait for K16x4 { type LenType = u16; type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>; type DataFormat = UniformSizedElementSeqFormat<IntFormat<u32>>;
    exec fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } exec fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } }
}
#[verifier::external]
pub mod vp_driver;
#[verifier::external]
fn main() { vp_driver::main() }
