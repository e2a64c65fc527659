//! C18: the fixed-point library. Every pair of operands of 8-bit instances of the generated
//! types, at every combination of scales; products of boundary values for the production types;
//! the wide-value functions built on them. The oracle is exact integer arithmetic: a value that
//! is returned is the exact result with the stated rounding, a result that does not fit makes
//! the operation fail, and an operation none of whose intermediate values overflows succeeds.
use decimal::*;
use mc::num::{b, div_up, U512};
use mc::par::*;
use mc::report::Report;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::fixed_point::FixedPoint;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::seconds_per_liquidity::SecondsPerLiquidity;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[decimal(0)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct B0(u8);
#[decimal(1)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct B1(u8);
#[decimal(2)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct B2(u8);
#[decimal(2, u128)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct C2(u8);
#[decimal(3, u128)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct W3(u16);
#[decimal(1)]
#[derive(Default, Debug, Clone, Copy, PartialEq)]
struct W1 {
    v: u16,
}

fn w(x: U256) -> U512 {
    let mut r = U512::zero();
    for i in 0..4 {
        r.0[i] = x.0[i];
    }
    r
}
fn narrow(x: U512) -> Option<U256> {
    if (x >> 256).is_zero() {
        Some(U256([x.0[0], x.0[1], x.0[2], x.0[3]]))
    } else {
        None
    }
}
trait Wide {
    const TOP: fn() -> U512;
    fn wide(self) -> U512;
    fn of(v: U512) -> Self;
}
impl Wide for U256 {
    const TOP: fn() -> U512 = || w(U256::MAX);
    fn wide(self) -> U512 {
        w(self)
    }
    fn of(v: U512) -> Self {
        narrow(v).unwrap()
    }
}
impl Wide for u128 {
    const TOP: fn() -> U512 = || b(u128::MAX);
    fn wide(self) -> U512 {
        b(self)
    }
    fn of(v: U512) -> Self {
        v.as_u128()
    }
}
fn p10(k: u8) -> U512 {
    U512::from(10).pow(U512::from(k))
}

/// what an operation should do: the exact result (None: there is none), the largest value the
/// result type holds, and whether no intermediate value overflows
fn judge(
    n: &mut u64,
    what: &dyn Fn() -> String,
    got: Option<U512>,
    exact: Option<U512>,
    top: U512,
    smooth: bool,
) -> Result<(), String> {
    *n += 1;
    match (got, exact) {
        (Some(g), Some(e)) if g == e => Ok(()),
        (Some(g), Some(e)) => Err(format!("{} returned {g}, the exact result is {e}", what())),
        (Some(g), None) => Err(format!("{} returned {g}, there is no result", what())),
        (None, Some(e)) if e <= top && smooth => Err(format!("{} failed, the result is {e}", what())),
        (None, _) => Ok(()),
    }
}
fn floor(a: U512, d: U512) -> Option<U512> {
    a.checked_div(d)
}
fn ceil(a: U512, d: U512) -> Option<U512> {
    if d.is_zero() {
        None
    } else {
        Some(div_up(a, d))
    }
}

/// all operations between a left type L (underlying LU, wide type WB) and a right type R
macro_rules! pair {
    ($L:ty, $LU:ty, $WB:ty, $R:ty, $RU:ty) => {{
        fn f(lv: $LU, rv: $RU) -> Result<u64, String> {
            let (l, r) = (<$L>::new(lv), <$R>::new(rv));
            let (ln, rn) = (stringify!($L), stringify!($R));
            let (a, c) = (b(lv as u128), b(rv as u128));
            let (sl, sr) = (<$L as Decimal>::scale(), <$R as Decimal>::scale());
            let (ol, or) = (p10(sl), p10(sr));
            let top = b(<$LU>::MAX as u128);
            let rtop = b(<$RU>::MAX as u128);
            let big = (<$WB as Wide>::TOP)();
            let one = U512::one();
            let mut n = 0;
            let name = |o: &'static str| move || format!("{ln}({lv}) {o} {rn}({rv})");
            let g = |x: Option<$L>| x.map(|y| b(y.get() as u128));
            let rfit = c <= top && or <= top;
            judge(&mut n, &name("*"), g(tried_plain(|| l * r)), floor(a * c, or), top, rfit && a * c <= top)?;
            judge(&mut n, &name("mul_up"), g(tried_plain(|| l.mul_up(r))), ceil(a * c, or), top, rfit && a * c + or - one <= top)?;
            judge(&mut n, &name("/"), g(tried_plain(|| l / r)), floor(a * or, c), top, rfit && a * or <= top)?;
            judge(&mut n, &name("div_up"), g(tried_plain(|| l.div_up(r))), ceil(a * or, c), top, rfit && a * or + c <= top)?;
            judge(&mut n, &name("big_mul"), g(tried_plain(|| l.big_mul(r))), floor(a * c, or), top, a * c <= big)?;
            judge(&mut n, &name("big_mul_up"), g(tried_plain(|| l.big_mul_up(r))), ceil(a * c, or), top, a * c + or - one <= big)?;
            judge(&mut n, &name("big_div"), g(tried_plain(|| l.big_div(r))), floor(a * or, c), top, a * or <= big)?;
            judge(&mut n, &name("checked_big_div"), g(tried(|| l.checked_big_div(r))), floor(a * or, c), top, a * or <= big)?;
            judge(&mut n, &name("big_div_up"), g(tried_plain(|| l.big_div_up(r))), ceil(a * or, c), top, a * or + c <= big)?;
            let v = tried_plain(|| { let x: $WB = l.big_mul_to_value(r); x }).map(Wide::wide);
            judge(&mut n, &name("big_mul_to_value"), v, floor(a * c, or), big, a * c <= big)?;
            let v = tried_plain(|| { let x: $WB = l.big_mul_to_value_up(r); x }).map(Wide::wide);
            judge(&mut n, &name("big_mul_to_value_up"), v, ceil(a * c, or), big, a * c + or - one <= big)?;
            // conversions of the right operand into the left type
            let (ex, exu, smooth, smooth_up) = if sl > sr {
                let m = p10(sl - sr);
                (c * m, c * m, c <= top && m <= top, c <= top && m <= top)
            } else {
                let d = p10(sr - sl);
                (c / d, div_up(c, d), d <= rtop, d <= rtop && c + d - one <= rtop)
            };
            judge(&mut n, &name("from_decimal"), g(tried_plain(|| <$L>::from_decimal(r))), Some(ex), top, smooth)?;
            judge(&mut n, &name("checked_from_decimal"), g(tried(|| <$L>::checked_from_decimal(r))), Some(ex), top, smooth)?;
            judge(&mut n, &name("from_decimal_up"), g(tried_plain(|| <$L>::from_decimal_up(r))), Some(exu), top, smooth_up)?;
            let v = tried(|| { let x: Result<$WB, String> = <$L>::checked_from_decimal_to_value(r); x }).map(Wide::wide);
            judge(&mut n, &name("checked_from_decimal_to_value"), v, Some(ex), big, c <= top)?;
            // division by a wide number
            for q in [c, a * c, c + one] {
                if q > big {
                    continue;
                }
                let nm = |o: &'static str| move || format!("{ln}({lv}) {o} {q}");
                let wq = <$WB as Wide>::of(q);
                let s = a * ol <= big;
                judge(&mut n, &nm("big_div_by_number"), g(tried_plain(|| l.big_div_by_number(wq))), floor(a * ol, q), top, s)?;
                judge(&mut n, &nm("checked_big_div_by_number"), g(tried(|| l.checked_big_div_by_number(wq))), floor(a * ol, q), top, s)?;
                let su = a * ol + q <= big;
                judge(&mut n, &nm("big_div_by_number_up"), g(tried_plain(|| l.big_div_by_number_up(wq))), ceil(a * ol, q), top, su)?;
                judge(&mut n, &nm("checked_big_div_by_number_up"), g(tried(|| l.checked_big_div_by_number_up(wq))), ceil(a * ol, q), top, su)?;
            }
            Ok(n)
        }
        f as fn($LU, $RU) -> Result<u64, String>
    }};
}
/// operations within one type, and with plain integers
macro_rules! same {
    ($L:ty, $LU:ty) => {{
        fn f(lv: $LU, rv: $LU) -> Result<u64, String> {
            let (l, r) = (<$L>::new(lv), <$L>::new(rv));
            let ln = stringify!($L);
            let (a, c) = (b(lv as u128), b(rv as u128));
            let sl = <$L as Decimal>::scale();
            let ol = p10(sl);
            let top = b(<$LU>::MAX as u128);
            let mut n = 0;
            let name = |o: &'static str| move || format!("{ln}({lv}) {o} {ln}({rv})");
            let g = |x: Option<$L>| x.map(|y| b(y.get() as u128));
            let sub = a.checked_sub(c);
            judge(&mut n, &name("+"), g(tried_plain(|| l + r)), Some(a + c), top, true)?;
            judge(&mut n, &name("-"), g(tried_plain(|| l - r)), sub, top, true)?;
            judge(&mut n, &name("+="), g(tried_plain(|| { let mut x = l; x += r; x })), Some(a + c), top, true)?;
            judge(&mut n, &name("-="), g(tried_plain(|| { let mut x = l; x -= r; x })), sub, top, true)?;
            judge(&mut n, &name("*="), g(tried_plain(|| { let mut x = l; x *= r; x })), floor(a * c, ol), top, a * c <= top && ol <= top)?;
            judge(&mut n, &name("/="), g(tried_plain(|| { let mut x = l; x /= r; x })), floor(a * ol, c), top, a * ol <= top)?;
            judge(&mut n, &name("checked_add"), g(tried(|| CheckedOps::checked_add(l, r))), Some(a + c), top, true)?;
            judge(&mut n, &name("checked_sub"), g(tried(|| CheckedOps::checked_sub(l, r))), sub, top, true)?;
            judge(&mut n, &name("checked_div"), g(tried(|| CheckedOps::checked_div(l, r))), floor(a * ol, c), top, a * ol <= top)?;
            judge(&mut n, &name("sub_abs"), g(tried_plain(|| l.sub_abs(r))), Some(if a > c { a - c } else { c - a }), top, true)?;
            judge(&mut n, &name("is_zero"), Some(U512::from(l.is_zero() as u8)), Some(U512::from(a.is_zero() as u8)), top, true)?;
            Ok(n)
        }
        f as fn($LU, $LU) -> Result<u64, String>
    }};
}
/// conversions of an integer with a given number of decimals
macro_rules! scales {
    ($L:ty, $LU:ty, $T:ty) => {{
        fn f(v: $T, k: u8) -> Result<u64, String> {
            let ln = stringify!($L);
            let sl = <$L as Decimal>::scale();
            let top = b(<$LU>::MAX as u128);
            let ttop = b(<$T>::MAX as u128);
            let c = b(v as u128);
            let mut n = 0;
            let name = |o: &'static str| move || format!("{ln}::{o}({v}, {k})");
            let g = |x: Option<$L>| x.map(|y| b(y.get() as u128));
            let (ex, exu, smooth, smooth_up) = if sl > k {
                let m = p10(sl - k);
                (c * m, c * m, c <= top && m <= top, c <= top && m <= top)
            } else if k - sl > 38 {
                (U512::zero(), if v == 0 { U512::zero() } else { U512::one() }, false, false)
            } else {
                let d = p10(k - sl);
                (c / d, div_up(c, d), d <= ttop, d <= ttop && c + d <= ttop)
            };
            judge(&mut n, &name("from_scale"), g(tried_plain(|| <$L>::from_scale(v, k))), Some(ex), top, smooth)?;
            judge(&mut n, &name("checked_from_scale"), g(tried(|| <$L>::checked_from_scale(v, k))), Some(ex), top, smooth)?;
            judge(&mut n, &name("from_scale_up"), g(tried_plain(|| <$L>::from_scale_up(v, k))), Some(exu), top, smooth_up)?;
            if k == 0 {
                let m = p10(sl);
                judge(&mut n, &name("from_integer"), g(tried_plain(|| <$L>::from_integer(v))), Some(c * m), top, c <= top && m <= top)?;
            }
            Ok(n)
        }
        f as fn($T, u8) -> Result<u64, String>
    }};
}

/// values around which carries, scales and widths change
fn edges(bits: u32, dense: bool) -> Vec<u128> {
    let top = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![0, 1, 2, 3, 5, 7, 9, top, top - 1, top - 2, top / 2, top / 2 + 1, top / 3, top / 3 + 1, top / 10, top / 10 + 1];
    for k in 0..39u32 {
        let p = 10u128.pow(k);
        if dense || [1, 4, 6, 12, 18, 24, 28, 30, 36, 38].contains(&k) {
            v.extend([p, p - 1, p.saturating_add(1)]);
            if dense {
                v.extend([p / 2, p.saturating_mul(3), p.saturating_mul(9).saturating_add(7)]);
            }
        }
    }
    for k in 0..128u32 {
        let p = 1u128 << k;
        if dense || [32, 63, 64, 96, 127].contains(&k) {
            v.extend([p, p - 1, p.saturating_add(1)]);
        }
    }
    v.extend([
        1_000_049_998_750_000_000_000_000,
        65535383934512647000000000000,
        15258932000000000000,
        123_456_789_012_345_678_901_234_567_890,
        987_654_321,
    ]);
    v.retain(|x| *x <= top);
    v.sort();
    v.dedup();
    v
}

pub fn run(r: &mut Report) {
    if let Err(e) = go(r) {
        r.fail(e);
    }
}
fn go(r: &mut Report) -> Result<(), String> {
    let section = |r: &mut Report, name: &str, cases: u64, n: u64| {
        r.states += cases;
        r.transitions += n;
        r.details.insert(name.into(), json!({"operand_pairs": cases, "evaluations": n}));
    };
    // 1. every pair of 8-bit operands
    macro_rules! all8 {
        ([$($L:ty, $WB:ty);*]; [$($R:ty),*]) => {{
            let mut v: Vec<(&'static str, fn(u8, u8) -> Result<u64, String>)> = vec![];
            all8!(@outer v; [$($L, $WB);*]; [$($R),*]);
            v
        }};
        (@outer $v:ident; [$($L:ty, $WB:ty);*]; $rs:tt) => { $( all8!(@inner $v; $L, $WB; $rs); )* };
        (@inner $v:ident; $L:ty, $WB:ty; [$($R:ty),*]) => { $( $v.push((concat!(stringify!($L), " ", stringify!($R)), pair!($L, u8, $WB, $R, u8))); )* $v.push((stringify!($L), same!($L, u8))); };
    }
    let fs = all8!([B0, U256; B1, U256; B2, U256; C2, u128]; [B0, B1, B2, C2]);
    let n = sweep(fs.len() * 256, |j| {
        let (_, f) = fs[j / 256];
        let mut n = 0;
        for x in 0..=255u8 {
            n += f((j % 256) as u8, x)?;
        }
        Ok(n)
    })?;
    section(r, "8-bit operands, all pairs", fs.len() as u64 * 65536, n);
    // mixed widths: every 8-bit value against boundary 16-bit values, both ways
    let e16: Vec<u16> = (0..=u16::MAX).filter(|x| r.thorough() || *x < 40 || *x > 65500 || x % 97 == 0 || x % 1000 < 2 || x % 256 < 2).collect();
    let m1 = pair!(W3, u16, u128, B0, u8);
    let m2 = pair!(W3, u16, u128, B2, u8);
    let m3 = pair!(W1, u16, U256, B2, u8);
    let m4 = pair!(B2, u8, U256, W3, u16);
    let m5 = pair!(B0, u8, U256, W1, u16);
    let m6 = pair!(C2, u8, u128, W3, u16);
    let n = sweep(256, |i| {
        let x = i as u8;
        let mut n = 0;
        for y in &e16 {
            n += m1(*y, x)? + m2(*y, x)? + m3(*y, x)? + m4(x, *y)? + m5(x, *y)? + m6(x, *y)?;
        }
        Ok(n)
    })?;
    section(r, "8-bit and 16-bit operands", 256 * 6 * e16.len() as u64, n);
    let sc8: Vec<fn(u8, u8) -> Result<u64, String>> =
        vec![scales!(B0, u8, u8), scales!(B1, u8, u8), scales!(B2, u8, u8), scales!(C2, u8, u8), scales!(W3, u16, u8)];
    let sc16: Vec<fn(u16, u8) -> Result<u64, String>> =
        vec![scales!(B0, u8, u16), scales!(B1, u8, u16), scales!(B2, u8, u16), scales!(W3, u16, u16), scales!(W1, u16, u16)];
    let n = sweep(256, |i| {
        let mut n = 0;
        for k in [0u8, 1, 2, 3, 4, 5, 6, 38, 39, 40, 41, 42, 255] {
            for f in &sc8 {
                n += f(i as u8, k)?;
            }
            for f in &sc16 {
                for h in 0..256u16 {
                    n += f(h * 256 + i as u16, k)?;
                }
            }
        }
        Ok(n)
    })?;
    section(r, "8-bit and 16-bit integers at every scale", 256 * 13 * 5 + 65536 * 13 * 5, n);
    // 2. production types on boundary values
    let dense = r.thorough();
    let e128 = edges(128, dense);
    let e64: Vec<u64> = edges(64, dense).into_iter().map(|x| x as u64).collect();
    macro_rules! big {
        ($($L:ty),*; $rs:tt) => {{
            let mut v: Vec<(&'static str, fn(u128, u128) -> Result<u64, String>)> = vec![];
            $( big!(@i v; $L; $rs); v.push((stringify!($L), same!($L, u128))); )*
            v
        }};
        (@i $v:ident; $L:ty; [$($R:ty),*]) => { $( $v.push((concat!(stringify!($L), " ", stringify!($R)), pair!($L, u128, U256, $R, u128))); )* };
    }
    let fs = big!(TokenAmount, Liquidity, SqrtPrice, FixedPoint, FeeGrowth, SecondsPerLiquidity; [TokenAmount, Liquidity, SqrtPrice, FixedPoint, FeeGrowth, SecondsPerLiquidity]);
    let n = sweep(fs.len() * e128.len(), |j| {
        let (_, f) = fs[j / e128.len()];
        let mut n = 0;
        for y in &e128 {
            n += f(e128[j % e128.len()], *y)?;
        }
        Ok(n)
    })?;
    section(r, "128-bit types, boundary values", (fs.len() * e128.len() * e128.len()) as u64, n);
    let lp: Vec<fn(u128, u64) -> Result<u64, String>> = vec![
        pair!(TokenAmount, u128, U256, Percentage, u64),
        pair!(Liquidity, u128, U256, Percentage, u64),
        pair!(SqrtPrice, u128, U256, Percentage, u64),
        pair!(FixedPoint, u128, U256, Percentage, u64),
        pair!(FeeGrowth, u128, U256, Percentage, u64),
    ];
    let pl: Vec<fn(u64, u128) -> Result<u64, String>> = vec![
        pair!(Percentage, u64, U256, TokenAmount, u128),
        pair!(Percentage, u64, U256, Liquidity, u128),
        pair!(Percentage, u64, U256, SqrtPrice, u128),
        pair!(Percentage, u64, U256, FixedPoint, u128),
    ];
    let pp = [pair!(Percentage, u64, U256, Percentage, u64), same!(Percentage, u64)];
    let n = sweep(e64.len(), |i| {
        let x = e64[i];
        let mut n = 0;
        for y in &e128 {
            for f in &lp {
                n += f(*y, x)?;
            }
            for f in &pl {
                n += f(x, *y)?;
            }
        }
        for y in &e64 {
            n += pp[0](x, *y)? + pp[1](x, *y)?;
        }
        Ok(n)
    })?;
    section(r, "percentages and 128-bit types, boundary values", (e64.len() * (9 * e128.len() + 2 * e64.len())) as u64, n);
    let sc: Vec<fn(u128, u8) -> Result<u64, String>> = vec![
        scales!(TokenAmount, u128, u128),
        scales!(Liquidity, u128, u128),
        scales!(SqrtPrice, u128, u128),
        scales!(FixedPoint, u128, u128),
        scales!(FeeGrowth, u128, u128),
        scales!(Percentage, u64, u128),
    ];
    let sc64: Vec<fn(u64, u8) -> Result<u64, String>> =
        vec![scales!(TokenAmount, u128, u64), scales!(SqrtPrice, u128, u64), scales!(Percentage, u64, u64)];
    let n = sweep(e128.len() + e64.len(), |i| {
        let mut n = 0;
        for k in (0..=66u8).chain([255]) {
            if i < e128.len() {
                for f in &sc {
                    n += f(e128[i], k)?;
                }
            } else {
                for f in &sc64 {
                    n += f(e64[i - e128.len()], k)?;
                }
            }
        }
        Ok(n)
    })?;
    section(r, "integers at every scale, boundary values", 68 * (6 * e128.len() + 3 * e64.len()) as u64, n);
    // 3. wide values
    let mut wide: Vec<U512> = vec![];
    for x in &e128 {
        wide.push(b(*x));
        wide.push(b(*x) << 128);
        wide.push((b(*x) << 128) + b(u128::MAX));
        wide.push(b(*x) << 64);
        wide.push(b(*x) * p10(24));
        wide.push(b(*x) * p10(24) + U512::one());
    }
    wide.retain(|x| narrow(*x).is_some());
    wide.sort();
    wide.dedup();
    let step = if dense { 1 } else { 1 + wide.len() / 400 };
    let wide: Vec<U512> = wide.into_iter().enumerate().filter(|(i, x)| i % step == 0 || *x < b(100) || *x >= w(U256::MAX) - b(100)).map(|(_, x)| x).collect();
    let one24 = p10(24);
    let top = b(u128::MAX);
    let t256 = w(U256::MAX);
    let t320 = (U512::one() << 320) - U512::one();
    let cases = AtomicU64::new(0);
    let n = sweep(wide.len(), |i| {
        let a = wide[i];
        let av = narrow(a).unwrap();
        let mut n = 0;
        let u = U512::one();
        for c in &wide {
            let c = *c;
            cases.fetch_add(1, Relaxed);
            let cv = narrow(c).unwrap();
            let name = |o: &'static str| move || format!("SqrtPrice::{o}({a}, {c})");
            let t = |x: Option<TokenAmount>| x.map(|y| b(y.get()));
            let p = |x: Option<SqrtPrice>| x.map(|y| b(y.get()));
            let small320 = a * one24 <= t320 && c > U512::zero() && a * one24 / c <= t256;
            judge(&mut n, &name("big_div_values_to_token"), t(tried(|| SqrtPrice::big_div_values_to_token(av, cv))), floor(a, c), top, small320)?;
            let small320up = a * one24 + c <= t320 && c > U512::zero() && (a * one24 + c - u) / c + one24 <= t256;
            judge(&mut n, &name("big_div_values_to_token_up"), t(tried(|| SqrtPrice::big_div_values_to_token_up(av, cv))), ceil(a, c), top, small320up)?;
            judge(&mut n, &name("big_div_values_up"), p(tried_plain(|| SqrtPrice::big_div_values_up(av, cv))), ceil(a * one24, c), top, a * one24 + c <= t256)?;
            judge(&mut n, &name("checked_big_div_values"), p(tried(|| SqrtPrice::checked_big_div_values(av, cv))), floor(a * one24, c), top, a * one24 <= t256)?;
            judge(&mut n, &name("checked_big_div_values_up"), p(tried(|| SqrtPrice::checked_big_div_values_up(av, cv))), ceil(a * one24, c), top, a * one24 + c <= t256)?;
        }
        let name = |o: &'static str| move || format!("{o}({a})");
        let t = |x: Option<TokenAmount>| x.map(|y| b(y.get()));
        judge(&mut n, &name("from_big_sqrt_price"), t(tried(|| TokenAmount::from_big_sqrt_price(av))), floor(a, one24), top, true)?;
        judge(&mut n, &name("from_big_sqrt_price_up"), t(tried(|| TokenAmount::from_big_sqrt_price_up(av))), ceil(a, one24), top, a + one24 <= t256)?;
        let v = u256_to_u320(av);
        judge(&mut n, &name("u256_to_u320"), Some(U512([v.0[0], v.0[1], v.0[2], v.0[3], v.0[4], 0, 0, 0])), Some(a), t256, true)?;
        judge(&mut n, &name("checked_u320_to_u256"), checked_u320_to_u256(v).map(w), Some(a), t256, true)?;
        for hi in [1u64, 2, 1 << 63, u64::MAX] {
            let big = U320([av.0[0], av.0[1], av.0[2], av.0[3], hi]);
            judge(&mut n, &name("checked_u320_to_u256 of a larger value"), checked_u320_to_u256(big).map(w), None, t256, true)?;
        }
        if a <= top {
            judge(&mut n, &name("to_u256"), Some(w(to_u256(a.as_u128()))), Some(a), t256, true)?;
        }
        Ok(n)
    })?;
    section(r, "wide values", cases.into_inner(), n);
    // 4. growth accumulators
    let n = sweep(e128.len(), |i| {
        let x = e128[i];
        let mut n = 0;
        for y in &e128 {
            let y = *y;
            let (a, c) = (b(x), b(y));
            let name = |o: &'static str| move || format!("{o}({x}, {y})");
            let fg = |q: Option<FeeGrowth>| q.map(|v| b(v.get()));
            judge(&mut n, &name("FeeGrowth::from_fee(liquidity, fee)"), fg(tried(|| FeeGrowth::from_fee(Liquidity::new(x), TokenAmount::new(y)))), floor(c * p10(34), a), top, c * p10(34) <= t256)?;
            judge(&mut n, &name("FeeGrowth::to_fee(growth, liquidity)"), tried(|| FeeGrowth::new(x).to_fee(Liquidity::new(y))).map(|v| b(v.get())), floor(a * c, p10(34)), top, a * c <= t256)?;
            judge(&mut n, &name("FeeGrowth::unchecked_add"), fg(tried_plain(|| FeeGrowth::new(x).unchecked_add(FeeGrowth::new(y)))), Some((a + c) % (top + U512::one())), top, true)?;
            judge(&mut n, &name("FeeGrowth::unchecked_sub"), fg(tried_plain(|| FeeGrowth::new(x).unchecked_sub(FeeGrowth::new(y)))), Some((a + top + U512::one() - c) % (top + U512::one())), top, true)?;
        }
        Ok(n)
    })?;
    section(r, "fee growth, boundary values", (e128.len() * e128.len()) as u64, n);
    // every case is a run of the real library; sequences of two dependent operations
    let n = sweep(256, |i| {
        let mut n = 0;
        for j in 0..=255u8 {
            let (x, y) = (i as u8, j);
            // multiplying and dividing back never gains; adding and subtracting back is neutral
            if let Some(z) = tried_plain(|| (B1::new(x).big_mul(B2::new(y))).big_div(B2::new(y))) {
                n += 1;
                if z.get() > x {
                    return Err(format!("B1({x}) * B2({y}) / B2({y}) gained: {}", z.get()));
                }
            }
            if let Some(z) = tried_plain(|| (B1::new(x) + B1::new(y)) - B1::new(y)) {
                n += 1;
                if z.get() != x {
                    return Err(format!("B1({x}) + B1({y}) - B1({y}) is {}", z.get()));
                }
            }
        }
        Ok(n)
    })?;
    r.traces += n;
    r.transitions += 2 * n;
    r.samples.push(json!({"operation": "B1(7).big_mul_up(B2(33))", "exact": "7*33/100 rounded up = 3", "returned": B1::new(7).big_mul_up(B2::new(33)).get()}));
    Ok(())
}
