//! Stored pool state.
use crate::calc::{calc, fees, flag, n, prog_err, u256};
use crate::Args;
use solana_program::pubkey::Pubkey;
use token_bonding_curve::curve::base::{CurveType, SwapCurve};
use token_bonding_curve::curve::calculator::CurveCalculator;
use token_bonding_curve::curve::fees::Fees;
use token_bonding_curve::state::{SwapState, SwapV1, SwapVersion};

pub fn key(a: &mut Args) -> Pubkey {
    let mut b = [0u8; 32];
    u256(a).to_little_endian(&mut b);
    Pubkey::new_from_array(b)
}
pub fn num(k: &Pubkey) -> String {
    spl_math::uint::U256::from_little_endian(k.as_ref()).to_string()
}
pub fn kind_type(k: &str) -> CurveType {
    match k {
        "xyk" => CurveType::ConstantProduct,
        "cp" => CurveType::ConstantPrice,
        "stb" => CurveType::Stable,
        "off" => CurveType::Offset,
        _ => CurveType::LinearPrice,
    }
}
pub fn swap_curve(a: &mut Args) -> SwapCurve {
    let k = a.next().unwrap().to_string();
    SwapCurve { curve_type: kind_type(&k), calculator: calc(&k, a).unwrap() }
}
fn state(a: &mut Args) -> SwapV1 {
    SwapV1 {
        is_initialized: flag(a),
        bump_seed: n(a),
        token_program_id: key(a),
        token_a: key(a),
        token_b: key(a),
        pool_mint: key(a),
        token_a_mint: key(a),
        token_b_mint: key(a),
        pool_fee_account: key(a),
        fees: fees(a),
        swap_curve: swap_curve(a),
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// decimal number to n little-endian bytes
fn dec(s: &str, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    for c in s.bytes() {
        let mut carry = (c - b'0') as u32;
        for x in v.iter_mut() {
            let t = *x as u32 * 10 + carry;
            *x = t as u8;
            carry = t >> 8;
        }
    }
    v
}
fn jfees(f: &Fees) -> String {
    format!(
        "{{\"trade_fee_numerator\":{},\"trade_fee_denominator\":{},\"owner_trade_fee_numerator\":{},\"owner_trade_fee_denominator\":{},\"owner_withdraw_fee_numerator\":{},\"owner_withdraw_fee_denominator\":{},\"host_fee_numerator\":{},\"host_fee_denominator\":{}}}",
        f.trade_fee_numerator,
        f.trade_fee_denominator,
        f.owner_trade_fee_numerator,
        f.owner_trade_fee_denominator,
        f.owner_withdraw_fee_numerator,
        f.owner_withdraw_fee_denominator,
        f.host_fee_numerator,
        f.host_fee_denominator
    )
}
/// ["dyn", type, {fields}] from the derived Debug output
fn jcalc(c: &dyn CurveCalculator) -> String {
    let d = format!("{:?}", c);
    let mut it = d.splitn(2, '{');
    let name = it.next().unwrap().trim().to_string();
    let body = it.next().unwrap_or("").trim_end_matches('}').trim().to_string();
    let fs: Vec<String> = body
        .split(',')
        .filter(|x| !x.trim().is_empty())
        .map(|x| {
            let mut p = x.splitn(2, ':');
            format!("\"{}\":{}", p.next().unwrap().trim(), p.next().unwrap().trim())
        })
        .collect();
    format!("[\"dyn\",\"{}\",{{{}}}]", name, fs.join(","))
}
fn jcurve(c: &SwapCurve) -> String {
    format!("{{\"curve_type\":\"{:?}\",\"calculator\":{}}}", c.curve_type, jcalc(&*c.calculator))
}
pub fn jstate(s: &dyn SwapState) -> String {
    format!(
        "[\"dyn\",\"SwapV1\",{{\"is_initialized\":{},\"bump_seed\":{},\"token_program_id\":{},\"token_a\":{},\"token_b\":{},\"pool_mint\":{},\"token_a_mint\":{},\"token_b_mint\":{},\"pool_fee_account\":{},\"fees\":{},\"swap_curve\":{}}}]",
        s.is_initialized(),
        s.bump_seed(),
        num(s.token_program_id()),
        num(s.token_a_account()),
        num(s.token_b_account()),
        num(s.pool_mint()),
        num(s.token_a_mint()),
        num(s.token_b_mint()),
        num(s.pool_fee_account()),
        jfees(s.fees()),
        jcurve(s.swap_curve())
    )
}
fn decode(b: &[u8]) -> String {
    prog_err(SwapVersion::unpack(b).map(|s| jstate(&*s)))
}
fn raw(a: &mut Args) -> Vec<u8> {
    match a.next().unwrap() {
        "exact" => {
            let mut v = vec![];
            let mut w = vec![1, 1, 1];
            w.extend([32; 7].iter().copied());
            w.extend([8; 8].iter().copied());
            w.push(1);
            w.extend([8; 4].iter().copied());
            for k in w {
                v.extend(dec(a.next().unwrap(), k));
            }
            v
        }
        "empty" => vec![],
        _ => {
            let f: u8 = n(a);
            let l: usize = n(a);
            let mut v = vec![1u8; l];
            v[0] = f;
            v
        }
    }
}

pub fn run(k: &str, a: &mut Args) -> Option<String> {
    let m = k.strip_prefix("st.")?;
    Some(match m {
        "pack" => {
            let s = state(a);
            let mut b = dec(a.next().unwrap(), SwapVersion::LATEST_LEN);
            let r = prog_err(SwapVersion::pack(SwapVersion::SwapV1(s), &mut b).map(|_| "[]".into()));
            format!("{{\"ret\":{},\"buf\":\"{}\"}}", r, hex(&b))
        }
        "unpack" => decode(&unhex(a.next().unwrap())),
        "decode" => decode(&raw(a)),
        "isinit" => SwapVersion::is_initialized(&raw(a)).to_string(),
        _ => {
            let g = m.strip_prefix("get.")?;
            let s = state(a);
            match g {
                "is_initialized" => SwapState::is_initialized(&s).to_string(),
                "bump_seed" => s.bump_seed().to_string(),
                "token_program_id" => num(s.token_program_id()),
                "token_a_account" => num(s.token_a_account()),
                "token_b_account" => num(s.token_b_account()),
                "pool_mint" => num(SwapState::pool_mint(&s)),
                "token_a_mint" => num(SwapState::token_a_mint(&s)),
                "token_b_mint" => num(SwapState::token_b_mint(&s)),
                "pool_fee_account" => num(SwapState::pool_fee_account(&s)),
                "fees" => jfees(SwapState::fees(&s)),
                "swap_curve" => jcurve(SwapState::swap_curve(&s)),
                _ => return None,
            }
        }
    })
}
