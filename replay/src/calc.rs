use crate::Args;
use solana_program::program_error::ProgramError;
use spl_math::precise_number::PreciseNumber;
use spl_math::uint::U256;
use std::str::FromStr;
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::base::{CurveType, SwapCurve, SwapResult};
use token_bonding_curve::curve::calculator::*;
use token_bonding_curve::curve::constant_price::ConstantPriceCurve;
use token_bonding_curve::curve::constant_product::ConstantProductCurve;
use token_bonding_curve::curve::fees::Fees;
use token_bonding_curve::curve::linear_price::LinearPriceCurve;
use token_bonding_curve::curve::offset::OffsetCurve;
use token_bonding_curve::curve::stable::StableCurve;
use token_bonding_curve::dfs_precise_number::DFSPreciseNumber;
use token_bonding_curve::error::SwapError;

pub fn n<T: FromStr>(a: &mut Args) -> T
where
    T::Err: std::fmt::Debug,
{
    a.next().expect("argument").parse().unwrap()
}
pub fn u256(a: &mut Args) -> U256 {
    U256::from_dec_str(a.next().expect("argument")).unwrap()
}
fn dir(a: &mut Args) -> TradeDirection {
    match a.next().unwrap() {
        "AtoB" => TradeDirection::AtoB,
        _ => TradeDirection::BtoA,
    }
}
fn round(a: &mut Args) -> RoundDirection {
    match a.next().unwrap() {
        "Floor" => RoundDirection::Floor,
        _ => RoundDirection::Ceiling,
    }
}
pub fn flag(a: &mut Args) -> bool {
    matches!(a.next().unwrap(), "1" | "True" | "true")
}
pub fn curve_type(s: &str) -> CurveType {
    match s {
        "ConstantProduct" => CurveType::ConstantProduct,
        "ConstantPrice" => CurveType::ConstantPrice,
        "Stable" => CurveType::Stable,
        "Offset" => CurveType::Offset,
        _ => CurveType::LinearPrice,
    }
}
pub fn calc(kind: &str, a: &mut Args) -> Option<Box<dyn CurveCalculator>> {
    Some(match kind {
        "cp" => Box::new(ConstantPriceCurve { token_b_price: n(a) }),
        "xyk" => Box::new(ConstantProductCurve {}),
        "off" => Box::new(OffsetCurve { token_b_offset: n(a) }),
        "stb" => Box::new(StableCurve { amp: n(a) }),
        "lin" => Box::new(LinearPriceCurve {
            slope_numerator: n(a),
            slope_denominator: n(a),
            initial_token_a_price_numerator: n(a),
            initial_token_a_price_denominator: n(a),
        }),
        _ => return None,
    })
}
pub fn fees(a: &mut Args) -> Fees {
    Fees {
        trade_fee_numerator: n(a),
        trade_fee_denominator: n(a),
        owner_trade_fee_numerator: n(a),
        owner_trade_fee_denominator: n(a),
        owner_withdraw_fee_numerator: n(a),
        owner_withdraw_fee_denominator: n(a),
        host_fee_numerator: n(a),
        host_fee_denominator: n(a),
    }
}

pub fn opt(x: Option<String>) -> String {
    match x {
        None => "null".into(),
        Some(s) => format!("[\"some\",{}]", s),
    }
}
pub fn swap_err(r: Result<(), SwapError>) -> String {
    match r {
        Ok(()) => "[\"ok\",[]]".into(),
        Err(e) => format!("[\"err\",{:?}]", format!("{:?}", e)),
    }
}
pub fn prog_err(r: Result<String, ProgramError>) -> String {
    match r {
        Ok(s) => format!("[\"ok\",{}]", s),
        Err(e) => format!("[\"err\",{:?}]", format!("{:?}", e)),
    }
}
fn dfs(x: DFSPreciseNumber) -> String {
    format!("{{\"value\":{}}}", x.value)
}
fn mk(v: U256) -> DFSPreciseNumber {
    DFSPreciseNumber { value: v }
}
fn pn(x: PreciseNumber) -> String {
    format!("{{\"value\":{}}}", x.value)
}
fn swf(r: SwapWithoutFeesResult) -> String {
    format!(
        "{{\"source_amount_swapped\":{},\"destination_amount_swapped\":{}}}",
        r.source_amount_swapped, r.destination_amount_swapped
    )
}
fn ttr(r: TradingTokenResult) -> String {
    format!("{{\"token_a_amount\":{},\"token_b_amount\":{}}}", r.token_a_amount, r.token_b_amount)
}
fn sres(r: SwapResult) -> String {
    format!(
        "{{\"new_swap_source_amount\":{},\"new_swap_destination_amount\":{},\"source_amount_swapped\":{},\"destination_amount_swapped\":{},\"trade_fee\":{},\"owner_fee\":{}}}",
        r.new_swap_source_amount,
        r.new_swap_destination_amount,
        r.source_amount_swapped,
        r.destination_amount_swapped,
        r.trade_fee,
        r.owner_fee
    )
}

/// a curve with a given answer that records what it was asked
#[derive(Debug)]
struct Mock {
    some: bool,
    u: u128,
    d: u128,
    calls: std::rc::Rc<std::cell::RefCell<Vec<String>>>,
}
impl DynPack for Mock {
    fn pack_into_slice(&self, _dst: &mut [u8]) {}
}
impl Mock {
    fn rec(&self, m: &str, x: &[u128], d: &str) {
        let l: Vec<String> = x.iter().map(|v| v.to_string()).collect();
        self.calls.borrow_mut().push(format!("[\"{}\",{},\"{}\"]", m, l.join(","), d));
    }
    fn one(&self) -> Option<u128> {
        if self.some {
            Some(self.u)
        } else {
            None
        }
    }
}
impl CurveCalculator for Mock {
    fn swap_without_fees(&self, s: u128, a: u128, b: u128, t: TradeDirection) -> Option<SwapWithoutFeesResult> {
        self.rec("swap_without_fees", &[s, a, b], &format!("{:?}", t));
        self.one().map(|u| SwapWithoutFeesResult { source_amount_swapped: u, destination_amount_swapped: self.d })
    }
    fn pool_tokens_to_trading_tokens(&self, p: u128, s: u128, a: u128, b: u128, r: RoundDirection) -> Option<TradingTokenResult> {
        self.rec("pool_tokens_to_trading_tokens", &[p, s, a, b], &format!("{:?}", r));
        None
    }
    fn deposit_single_token_type(&self, s: u128, a: u128, b: u128, p: u128, t: TradeDirection) -> Option<u128> {
        self.rec("deposit_single_token_type", &[s, a, b, p], &format!("{:?}", t));
        self.one()
    }
    fn withdraw_single_token_type_exact_out(&self, s: u128, a: u128, b: u128, p: u128, t: TradeDirection) -> Option<u128> {
        self.rec("withdraw_single_token_type_exact_out", &[s, a, b, p], &format!("{:?}", t));
        self.one()
    }
    fn validate(&self) -> Result<(), SwapError> {
        Ok(())
    }
    fn normalized_value(&self, _a: u128, _b: u128) -> Option<PreciseNumber> {
        None
    }
}

pub fn run(key: &str, a: &mut Args) -> Option<String> {
    let mut it = key.splitn(2, '.');
    let (grp, m) = (it.next()?, it.next()?);
    if let "cp" | "xyk" | "off" | "stb" | "lin" = grp {
        let c = calc(grp, a)?;
        return Some(match m {
            "swap" => opt(c.swap_without_fees(n(a), n(a), n(a), dir(a)).map(swf)),
            "supply" => c.new_pool_supply().to_string(),
            "p2t" => opt(c.pool_tokens_to_trading_tokens(n(a), n(a), n(a), n(a), round(a)).map(ttr)),
            "dep1" => opt(c.deposit_single_token_type(n(a), n(a), n(a), n(a), dir(a)).map(|x| x.to_string())),
            "wd1" => opt(c.withdraw_single_token_type_exact_out(n(a), n(a), n(a), n(a), dir(a)).map(|x| x.to_string())),
            "validate" => swap_err(c.validate()),
            "vsupply" => swap_err(c.validate_supply(n(a), n(a))),
            "allows" => c.allows_deposits().to_string(),
            "norm" => opt(c.normalized_value(n(a), n(a)).map(pn)),
            _ => return None,
        });
    }
    match grp {
        "dfs" => Some(match m {
            "new" => opt(DFSPreciseNumber::new(n(a)).map(dfs)),
            "imp" => opt(mk(u256(a)).to_imprecise().map(|x| x.to_string())),
            "floor" => opt(mk(u256(a)).floor().map(dfs)),
            "ceil" => opt(mk(u256(a)).ceiling().map(dfs)),
            "add" => opt(mk(u256(a)).checked_add(&mk(u256(a))).map(dfs)),
            "sub" => opt(mk(u256(a)).checked_sub(&mk(u256(a))).map(dfs)),
            "mul" => opt(mk(u256(a)).checked_mul(&mk(u256(a))).map(dfs)),
            "div" => opt(mk(u256(a)).checked_div(&mk(u256(a))).map(dfs)),
            "usub" => {
                let (v, s) = mk(u256(a)).unsigned_sub(&mk(u256(a)));
                format!("[{},{}]", dfs(v), s)
            }
            "lt" => mk(u256(a)).less_than(&mk(u256(a))).to_string(),
            "le" => mk(u256(a)).less_than_or_equal(&mk(u256(a))).to_string(),
            "gt" => mk(u256(a)).greater_than(&mk(u256(a))).to_string(),
            "ge" => mk(u256(a)).greater_than_or_equal(&mk(u256(a))).to_string(),
            "sqrt" => {
                let v = u256(a);
                opt(mk(v).sqrt_u64(flag(a)).map(dfs))
            }
            _ => return None,
        }),
        "fees" => {
            let f = fees(a);
            Some(match m {
                "trade" => opt(f.trading_fee(n(a)).map(|x| x.to_string())),
                "owner" => opt(f.owner_trading_fee(n(a)).map(|x| x.to_string())),
                "wd" => opt(f.owner_withdraw_fee(n(a)).map(|x| x.to_string())),
                "host" => opt(f.host_fee(n(a)).map(|x| x.to_string())),
                "validate" => swap_err(f.validate()),
                _ => return None,
            })
        }
        "sc" => {
            // sc.swap <curve kind> <curve params> <fees> amounts
            let kind = a.next()?.to_string();
            let c = calc(&kind, a)?;
            let sc = SwapCurve { curve_type: CurveType::ConstantPrice, calculator: c };
            let f = fees(a);
            Some(match m {
                "swap" => opt(sc.swap(n(a), n(a), n(a), dir(a), &f).map(sres)),
                "dep1" => opt(sc.deposit_single_token_type(n(a), n(a), n(a), n(a), dir(a), &f).map(|x| x.to_string())),
                "wd1" => opt(sc.withdraw_single_token_type_exact_out(n(a), n(a), n(a), n(a), dir(a), &f).map(|x| x.to_string())),
                _ => return None,
            })
        }
        "scm" => {
            // scm.swap <None|Some> <answer> <fees> amounts: a curve that gives this answer
            let some = a.next()? == "Some";
            let u = n(a);
            let d = if m == "swap" { n(a) } else { 0 };
            let calls = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
            let c = Box::new(Mock { some, u, d, calls: calls.clone() });
            let sc = SwapCurve { curve_type: CurveType::ConstantPrice, calculator: c };
            let f = fees(a);
            let r = match m {
                "swap" => opt(sc.swap(n(a), n(a), n(a), dir(a), &f).map(sres)),
                "dep1" => opt(sc.deposit_single_token_type(n(a), n(a), n(a), n(a), dir(a), &f).map(|x| x.to_string())),
                "wd1" => opt(sc.withdraw_single_token_type_exact_out(n(a), n(a), n(a), n(a), dir(a), &f).map(|x| x.to_string())),
                _ => return None,
            };
            let l = calls.borrow().join(",");
            Some(format!("{{\"ret\":{},\"calls\":[{}]}}", r, l))
        }
        "con" => Some(match m {
            // con.curve <curve type> <list of allowed types, comma separated or ->
            "curve" => {
                let t = curve_type(a.next()?);
                let l: Vec<CurveType> = a.next()?.split(',').filter(|s| *s != "-").map(curve_type).collect();
                let f = Fees::default();
                let c = SwapConstraints { owner_key: "", valid_curve_types: &l, fees: &f };
                let sc = SwapCurve { curve_type: t, calculator: Box::new(ConstantProductCurve {}) };
                prog_err(c.validate_curve(&sc).map(|_| "[]".into()))
            }
            "fees" => {
                let f = fees(a);
                let g = fees(a);
                let l = [CurveType::ConstantPrice];
                let c = SwapConstraints { owner_key: "", valid_curve_types: &l, fees: &f };
                prog_err(c.validate_fees(&g).map(|_| "[]".into()))
            }
            _ => return None,
        }),
        _ => None,
    }
}
