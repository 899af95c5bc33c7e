#![verifier::loop_isolation(false)]
#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
#![allow(non_snake_case)]
pub mod example { pub mod Bank_v; pub mod BankSpec_t; pub mod BankContract_t; pub mod BankObligations_v; pub mod ClientAPI_t; pub mod SimpleBank_v; }
pub mod vp_lib;
#[verifier::external]
pub mod vp_driver;
#[verifier::external]
fn main() { vp_driver::main() }
