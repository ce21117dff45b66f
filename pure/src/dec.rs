//! The decimal library: every operation on the decimal types of the contract.
use crate::*;
use decimal::*;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::fixed_point::FixedPoint;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;

fn lib(s: &str) -> String {
    format!("decimal.{s}")
}

// operations of a u128 decimal A with an operand of the decimal B
macro_rules! ops {
    ($o:expr, $g:expr, $A:ident, $B:ident, $wb:expr) => {{
        let (o, g): (&mut Out, &mut Gen) = ($o, $g);
        let x = g.u();
        let y = g.upto($wb);
        let ob = <$B as Decimal>::one::<u128>();
        let (sa, sb) = (<$A as Decimal>::scale(), <$B as Decimal>::scale());
        let a = || <$A as Decimal>::new(x);
        let c = || <$B as Decimal>::new(y.try_into().unwrap());
        let k = [i(x), i(y), i(ob)];
        o.call(&lib("mul"), "dMul", &k, oi(guard(|| Some((a() * c()).get()))));
        o.call(&lib("div"), "dDiv", &k, oi(guard(|| Some((a() / c()).get()))));
        o.call(&lib("mul_up"), "dMulUp", &k, oi(guard(|| Some(a().mul_up(c()).get()))));
        o.call(&lib("div_up"), "dDivUp", &k, oi(guard(|| Some(a().div_up(c()).get()))));
        o.call(&lib("big_mul"), "bigMul", &k, oi(guard(|| Some(a().big_mul(c()).get()))));
        o.call(&lib("big_mul_up"), "bigMulUp", &k, oi(guard(|| Some(a().big_mul_up(c()).get()))));
        o.call(&lib("big_div"), "bigDiv", &k, oi(guard(|| Some(a().big_div(c()).get()))));
        o.call(&lib("checked_big_div"), "bigDiv", &k, oi(guard(|| a().checked_big_div(c()).ok().map(|v| v.get()))));
        o.call(&lib("big_div_up"), "bigDivUp", &k, oi(guard(|| Some(a().big_div_up(c()).get()))));
        o.call(&lib("big_mul_to_value"), "mulToValue", &k, oi(guard(|| Some(a().big_mul_to_value(c())))));
        o.call(&lib("big_mul_to_value_up"), "mulToValueUp", &k, oi(guard(|| Some(a().big_mul_to_value_up(c())))));
        let k = [i(y), i(sb), i(sa)];
        o.call(&lib("from_decimal"), "rescale", &k, oi(guard(|| Some($A::from_decimal(c()).get()))));
        o.call(&lib("checked_from_decimal"), "rescale", &k, oi(guard(|| $A::checked_from_decimal(c()).ok().map(|v| v.get()))));
        o.call(&lib("from_decimal_up"), "rescaleUp", &[i(y), i(sb), i(sa), i($wb)], oi(guard(|| Some($A::from_decimal_up(c()).get()))));
        o.call(&lib("checked_from_decimal_to_value"), "rescaleBig", &k, oi(guard(|| {
            let r: Result<U256, String> = <$A as BetweenDecimalsToValue<$B, U256>>::checked_from_decimal_to_value(c());
            r.ok()
        })));
    }};
}
// operations within one decimal
macro_rules! own {
    ($o:expr, $g:expr, $A:ident) => {{
        let (o, g): (&mut Out, &mut Gen) = ($o, $g);
        let (x, y) = (g.u(), g.u());
        let one = <$A as Decimal>::one::<u128>();
        let a = || <$A as Decimal>::new(x);
        let c = || <$A as Decimal>::new(y);
        let k = [i(x), i(y)];
        o.call(&lib("add"), "add128", &k, oi(guard(|| Some((a() + c()).get()))));
        o.call(&lib("sub"), "sub128", &k, oi(guard(|| Some((a() - c()).get()))));
        o.call(&lib("add_assign"), "add128", &k, oi(guard(|| { let mut z = a(); z += c(); Some(z.get()) })));
        o.call(&lib("sub_assign"), "sub128", &k, oi(guard(|| { let mut z = a(); z -= c(); Some(z.get()) })));
        o.call(&lib("checked_add"), "add128", &k, oi(guard(|| a().checked_add(c()).ok().map(|v| v.get()))));
        o.call(&lib("checked_sub"), "sub128", &k, oi(guard(|| a().checked_sub(c()).ok().map(|v| v.get()))));
        o.call(&lib("sub_abs"), "dist", &k, oi(guard(|| Some(a().sub_abs(c()).get()))));
        let k3 = [i(x), i(y), i(one)];
        o.call(&lib("mul_assign"), "dMul", &k3, oi(guard(|| { let mut z = a(); z *= c(); Some(z.get()) })));
        o.call(&lib("div_assign"), "dDiv", &k3, oi(guard(|| { let mut z = a(); z /= c(); Some(z.get()) })));
        o.call(&lib("checked_div"), "dDiv", &k3, oi(guard(|| CheckedOps::checked_div(a(), c()).ok().map(|v| v.get()))));
        let w = U256::from(y) * U256::from(g.upto(1 << 100));
        let kw = [i(x), i(w), i(one)];
        o.call(&lib("big_div_by_number"), "bigDiv", &kw, oi(guard(|| Some(a().big_div_by_number(w).get()))));
        o.call(&lib("checked_big_div_by_number"), "bigDiv", &kw, oi(guard(|| a().checked_big_div_by_number(w).ok().map(|v| v.get()))));
        o.call(&lib("big_div_by_number_up"), "bigDivUp", &kw, oi(guard(|| Some(a().big_div_by_number_up(w).get()))));
        o.call(&lib("checked_big_div_by_number_up"), "bigDivUp", &kw, oi(guard(|| a().checked_big_div_by_number_up(w).ok().map(|v| v.get()))));
        let s = g.r.below(40) as u8;
        let sa = <$A as Decimal>::scale();
        let ks = [i(x), i(s), i(sa)];
        o.call(&lib("from_scale"), "rescale", &ks, oi(guard(|| Some($A::from_scale(x, s).get()))));
        o.call(&lib("checked_from_scale"), "rescale", &ks, oi(guard(|| $A::checked_from_scale(x, s).ok().map(|v| v.get()))));
        o.call(&lib("from_scale_up"), "rescaleUp", &[i(x), i(s), i(sa), i(u128::MAX)], oi(guard(|| Some($A::from_scale_up(x, s).get()))));
        o.call(&lib("from_integer"), "rescale", &[i(x), i(0), i(sa)], oi(guard(|| Some($A::from_integer(x).get()))));
        o.law(&lib("constants"), "decimalOne", &[i(sa), i(one), i(<$A as Decimal>::almost_one::<u128>()), i(<$A as Decimal>::max_value())]);
        // Display prints the value with all its decimals
        let t = format!("{}", a());
        let (ip, fp) = match t.split_once('.') { Some((p, q)) => (p.to_string(), q.to_string()), None => (t.clone(), String::new()) };
        o.law(&lib("fmt"), "printed", &[i(x), i(sa), i(ip), i(if fp.is_empty() { "0".into() } else { fp.trim_start_matches('0').parse::<u128>().unwrap_or(0).to_string() }), i(fp.len())]);
    }};
}
// division of wide values into prices and tokens
fn wide(o: &mut Out, g: &mut Gen) {
    let n = U256::from(g.u()) * U256::from(g.u());
    let d = match g.r.below(6) {
        0 => U256::from(g.u()) * U256::from(g.u()),
        1 => U256::from(0),
        _ => U256::from(g.u()),
    };
    let k = [i(n), i(d)];
    o.call("SqrtPrice.big_div_values_to_token", "toToken", &k, oi(guard(|| SqrtPrice::big_div_values_to_token(n, d).ok().map(|v| v.get()))));
    o.call("SqrtPrice.big_div_values_to_token_up", "toTokenUp", &k, oi(guard(|| SqrtPrice::big_div_values_to_token_up(n, d).ok().map(|v| v.get()))));
    o.call("SqrtPrice.big_div_values_up", "toPriceUp", &[i(n), i(d), b(true)], oi(guard(|| Some(SqrtPrice::big_div_values_up(n, d).get()))));
    o.call("SqrtPrice.checked_big_div_values", "toPrice", &k, oi(guard(|| SqrtPrice::checked_big_div_values(n, d).ok().map(|v| v.get()))));
    o.call("SqrtPrice.checked_big_div_values_up", "toPriceUp", &[i(n), i(d), b(false)], oi(guard(|| SqrtPrice::checked_big_div_values_up(n, d).ok().map(|v| v.get()))));
    let w = u256_to_u320(n) * u256_to_u320(U256::from(g.u() >> 64));
    o.call("decimal.checked_u320_to_u256", "u256", &[i(w)], oi(guard(|| checked_u320_to_u256(w))));
    let x = g.u();
    o.call("decimal.to_u256", "u256", &[i(x)], i(to_u256(x)));
    o.call("decimal.u256_to_u320", "u320", &[i(n)], i(u256_to_u320(n)));
}

pub fn run(o: &mut Out, g: &mut Gen, n: u64) {
    for k in 0..n {
        match k % 12 {
            0 => own!(o, g, TokenAmount),
            1 => own!(o, g, SqrtPrice),
            2 => own!(o, g, Liquidity),
            3 => own!(o, g, FeeGrowth),
            4 => own!(o, g, FixedPoint),
            5 => ops!(o, g, TokenAmount, Percentage, u64::MAX as u128),
            6 => ops!(o, g, SqrtPrice, Liquidity, u128::MAX),
            7 => ops!(o, g, SqrtPrice, TokenAmount, u128::MAX),
            8 => ops!(o, g, Liquidity, SqrtPrice, u128::MAX),
            9 => ops!(o, g, SqrtPrice, SqrtPrice, u128::MAX),
            10 => ops!(o, g, FixedPoint, SqrtPrice, u128::MAX),
            _ => wide(o, g),
        }
    }
}
