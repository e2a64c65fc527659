#![allow(clippy::all)]
use uint::construct_uint;
construct_uint! {
    pub struct U512(8);
}
pub fn b(x: u128) -> U512 {
    U512::from(x)
}
pub const E6: u128 = 1_000_000;
pub const E12: u128 = 1_000_000_000_000;
pub const E18: u128 = 1_000_000_000_000_000_000;
pub const E24: u128 = 1_000_000_000_000_000_000_000_000;
pub fn div_up(a: U512, d: U512) -> U512 {
    (a + d - U512::one()) / d
}
/// to u128, None when it does not fit
pub fn small(x: U512) -> Option<u128> {
    if x > b(u128::MAX) {
        None
    } else {
        Some(x.as_u128())
    }
}
