#![allow(dead_code)]
#[path = "../../harness/src/frame.rs"] mod frame;
#[path = "../../harness/src/ring.rs"] mod ring;
#[path = "../../harness/src/alloc.rs"] mod alloc;
use frame::*;
fn property(id: &str, tier: Tier) -> Option<Property> { match id { "C04" => Some(ring::c04(tier)), "C05" => Some(alloc::c05(tier)), "C06" => Some(alloc::c06(tier)), _ => None } }
fn main() { frame::main(property) }
