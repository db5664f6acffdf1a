//! The operations on accounts, with the token program replaced by a recorder.
use crate::calc::n;
use crate::codec::kind_type;
use crate::Args;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use spl_math::uint::U256;
use std::collections::HashMap;
use std::sync::{Mutex, Once};
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::base::SwapCurve;
use token_bonding_curve::curve::calculator::*;
use token_bonding_curve::curve::constant_price::ConstantPriceCurve;
use token_bonding_curve::curve::constant_product::ConstantProductCurve;
use token_bonding_curve::curve::fees::Fees;
use token_bonding_curve::curve::linear_price::LinearPriceCurve;
use token_bonding_curve::curve::offset::OffsetCurve;
use token_bonding_curve::curve::stable::StableCurve;
use token_bonding_curve::processor::Processor;

#[derive(Default)]
pub struct Rec {
    pub flags: Vec<bool>,
    pub hv: u64,
    /// label of each address
    pub labels: HashMap<Pubkey, String>,
    /// what each account's data should be (start of the data, bytes)
    pub expect: Vec<(usize, Vec<u8>)>,
    pub trace: Vec<String>,
}
static REC: Mutex<Option<Rec>> = Mutex::new(None);

impl Rec {
    pub fn label(&self, k: &Pubkey) -> String {
        self.labels.get(k).cloned().unwrap_or_else(|| U256::from_little_endian(k.as_ref()).to_string())
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let mut guard = REC.lock().unwrap_or_else(|e| e.into_inner());
        let r = guard.as_mut().unwrap();
        let metas: Vec<String> = ix.accounts.iter().map(|m| format!("[{},{},{}]", r.label(&m.pubkey), m.is_signer, m.is_writable)).collect();
        let keys: Vec<String> = infos.iter().map(|a| r.label(a.key)).collect();
        let sd: Vec<String> = seeds
            .iter()
            .map(|s| {
                let parts: Vec<String> = s
                    .iter()
                    .map(|b| {
                        let v = if b.len() == 32 {
                            let mut x = [0u8; 32];
                            x.copy_from_slice(b);
                            r.label(&Pubkey::new_from_array(x))
                        } else {
                            U256::from_little_endian(b).to_string()
                        };
                        format!("[{},{}]", b.len(), v)
                    })
                    .collect();
                format!("[{}]", parts.join(","))
            })
            .collect();
        let amount = if ix.data.len() == 9 {
            let mut x = [0u8; 8];
            x.copy_from_slice(&ix.data[1..9]);
            u64::from_le_bytes(x).to_string()
        } else {
            "null".into()
        };
        r.trace.push(format!(
            "{{\"prog\":{},\"kind\":{},\"amount\":{},\"size\":{},\"metas\":[{}],\"infos\":[{}],\"seeds\":[{}]}}",
            r.label(&ix.program_id),
            ix.data.get(0).map(|x| x.to_string()).unwrap_or_else(|| "null".into()),
            amount,
            ix.data.len(),
            metas.join(","),
            keys.join(","),
            sd.join(",")
        ));
        let k = r.trace.len() - 1;
        if !r.flags.get(k).cloned().unwrap_or(true) {
            return Err(ProgramError::Custom(7));
        }
        // the token program changes the balances of the writable accounts
        for m in ix.accounts.iter().filter(|m| m.is_writable) {
            for a in infos.iter().filter(|a| *a.key == m.pubkey) {
                let mut d = a.data.borrow_mut();
                let off = match d.len() {
                    165 => 64,
                    82 => 36,
                    _ => continue,
                };
                r.hv = r.hv.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let v = (r.hv >> (r.hv & 63)).to_le_bytes();
                d[off..off + 8].copy_from_slice(&v);
                let at = d.as_ptr() as usize;
                for e in r.expect.iter_mut().filter(|e| e.0 == at) {
                    e.1[off..off + 8].copy_from_slice(&v);
                }
            }
        }
        Ok(())
    }
}
static INIT: Once = Once::new();

pub fn raw_key(label: &str) -> Pubkey {
    let mut b = [0u8; 32];
    U256::from_dec_str(label).unwrap().to_little_endian(&mut b);
    Pubkey::new_from_array(b)
}

/// addresses: labels made concrete so that the derived authority comes out as asked
pub struct Names {
    pub salt: u8,
    pub pda_label: String,
    pub pda: Option<Pubkey>,
    pub fixed: Vec<Pubkey>,
    pub seen: HashMap<Pubkey, String>,
}
impl Names {
    pub fn plain(&self, label: &str) -> Pubkey {
        let k = raw_key(label);
        if self.fixed.contains(&k) {
            return k;
        }
        let mut b = k.to_bytes();
        for x in b.iter_mut() {
            *x ^= self.salt.wrapping_mul(37);
        }
        Pubkey::new_from_array(b)
    }
    pub fn get(&mut self, label: &str) -> Pubkey {
        let k = match self.pda {
            Some(p) if label == self.pda_label => p,
            _ => self.plain(label),
        };
        self.seen.insert(k, label.to_string());
        k
    }
}

pub struct Acct {
    pub key: String,
    pub owner: String,
    /// data pieces: 32-byte labels or plain numbers
    pub segs: Vec<(usize, String)>,
}
pub fn accts(a: &mut Args) -> Vec<Acct> {
    let k: usize = n(a);
    (0..k)
        .map(|_| {
            let key = a.next().unwrap().to_string();
            let owner = a.next().unwrap().to_string();
            let mut segs = vec![];
            loop {
                let t = a.next().unwrap();
                if t == "." {
                    break;
                }
                if t.starts_with('k') {
                    segs.push((32, t[1..].to_string()));
                } else {
                    let mut p = t.splitn(2, ':');
                    segs.push((p.next().unwrap().parse().unwrap(), p.next().unwrap().to_string()));
                }
            }
            Acct { key, owner, segs }
        })
        .collect()
}
fn leak<T>(x: T) -> &'static mut T {
    Box::leak(Box::new(x))
}
pub fn infos(l: &[Acct], nm: &mut Names) -> Vec<AccountInfo<'static>> {
    l.iter()
        .map(|a| {
            let mut d: Vec<u8> = vec![];
            for (w, v) in &a.segs {
                if *w == 32 {
                    d.extend_from_slice(nm.get(v).as_ref());
                } else {
                    let mut b = [0u8; 32];
                    U256::from_dec_str(v).unwrap().to_little_endian(&mut b);
                    d.extend_from_slice(&b[..*w]);
                }
            }
            let (k, o) = (nm.get(&a.key), nm.get(&a.owner));
            AccountInfo::new(leak(k), true, true, leak(1), Box::leak(d.into_boxed_slice()), leak(o), false, 0)
        })
        .collect()
}

pub fn curve(tag: u64, p: [u64; 4]) -> Option<SwapCurve> {
    let (k, calculator): (&str, Box<dyn CurveCalculator>) = match tag {
        0 => ("xyk", Box::new(ConstantProductCurve {})),
        1 => ("cp", Box::new(ConstantPriceCurve { token_b_price: p[0] })),
        2 => ("stb", Box::new(StableCurve { amp: p[0] })),
        3 => ("off", Box::new(OffsetCurve { token_b_offset: p[0] })),
        30 => ("lin", Box::new(LinearPriceCurve { slope_numerator: p[0], slope_denominator: p[1], initial_token_a_price_numerator: p[2], initial_token_a_price_denominator: p[3] })),
        _ => return None,
    };
    Some(SwapCurve { curve_type: kind_type(k), calculator })
}
pub fn curve_req(a: &mut Args) -> (Option<SwapCurve>, Fees) {
    let tag: u64 = n(a);
    let p = [n(a), n(a), n(a), n(a)];
    (curve(tag, p), crate::calc::fees(a))
}
pub fn dirn(a: &mut Args) -> TradeDirection {
    match a.next().unwrap() {
        "AtoB" => TradeDirection::AtoB,
        _ => TradeDirection::BtoA,
    }
}

#[derive(Clone)]
pub struct Head {
    program: String,
    pda: String,
    pda_ok: bool,
    bump: u8,
    hv: u64,
    flags: Vec<bool>,
}
pub fn head(a: &mut Args) -> Head {
    Head { program: a.next().unwrap().into(), pda: a.next().unwrap().into(), pda_ok: a.next().unwrap() == "1", bump: n(a), hv: n(a), flags: (0..4).map(|_| a.next().unwrap() == "1").collect() }
}

pub struct Oracle(pub Vec<(&'static str, String)>);
impl Oracle {
    pub fn add<T: ToString>(&mut self, k: &'static str, v: T) {
        self.0.push((k, v.to_string()));
    }
    pub fn flag(&mut self, k: &'static str, v: bool) {
        self.0.push((k, (if v { "1" } else { "0" }).to_string()));
    }
}

/// derive: the authority follows from a given bump seed (else it is searched for)
pub fn execute(h: Head, al: &[Acct], derive: bool, mut o: Oracle, f: impl FnOnce(&Pubkey, &[AccountInfo]) -> ProgramResult) -> String {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
    });
    let mut nm = Names { salt: 0, pda_label: h.pda.clone(), pda: None, fixed: vec![spl_token::id(), crate::proc::owner_key()], seen: HashMap::new() };
    let swap = al.get(0).map(|x| x.key.clone()).unwrap_or_else(|| "0".into());
    for salt in 0..48u8 {
        nm.salt = salt;
        let (sk, pk) = (nm.plain(&swap), nm.plain(&h.program));
        if derive {
            let r = Pubkey::create_program_address(&[&sk.to_bytes()[..32], &[h.bump]], &pk);
            nm.pda = r.ok();
            if nm.pda.is_some() == h.pda_ok {
                break;
            }
        } else {
            let (k, b) = Pubkey::find_program_address(&[&sk.to_bytes()], &pk);
            nm.pda = Some(k);
            if b == h.bump {
                break;
            }
        }
    }
    if h.pda == swap || h.pda == h.program {
        // no derived address is also one of the addresses it is derived from
        nm.pda_label = "7777777777777777777777777777777777777777777777777777777777777777777777777".into();
        o.add("pda", nm.pda_label.clone());
    }
    if derive {
        o.flag("pda_ok", nm.pda.is_some());
    } else {
        let (sk, pk) = (nm.plain(&swap), nm.plain(&h.program));
        o.add("new_bump", Pubkey::find_program_address(&[&sk.to_bytes()], &pk).1);
    }
    let program = nm.get(&h.program);
    let inf = infos(al, &mut nm);
    let expect = inf.iter().map(|x| (x.data.borrow().as_ptr() as usize, x.data.borrow().to_vec())).collect();
    *REC.lock().unwrap_or_else(|e| e.into_inner()) = Some(Rec { flags: h.flags, hv: h.hv, labels: nm.seen.clone(), expect, trace: vec![] });
    let ret = f(&program, &inf);
    let rec = REC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
    let same: Vec<String> = inf.iter().zip(rec.expect.iter()).map(|(x, e)| (x.data.borrow().to_vec() == e.1).to_string()).collect();
    // account data of the pool: addresses as labels
    let data = inf.get(0).map(|x| relabel(&x.data.borrow(), &rec)).unwrap_or_default();
    let ret = match ret {
        Ok(()) => "[\"ok\",[]]".to_string(),
        Err(e) => format!("[\"err\",{:?}]", format!("{:?}", e)),
    };
    let orc: Vec<String> = o.0.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    format!("{{\"ret\":{},\"trace\":[{}],\"same\":[{}],\"data\":[{}],\"oracle\":{{{}}}}}", ret, rec.trace.join(","), same.join(","), data, orc.join(","))
}
/// pool data field by field
fn relabel(d: &[u8], r: &Rec) -> String {
    let w: Vec<usize> = [vec![1, 1, 1], vec![32; 7], vec![8; 8], vec![1], vec![8; 4]].concat();
    if d.len() != w.iter().sum::<usize>() {
        return String::new();
    }
    let mut off = 0;
    let mut out = vec![];
    for k in w {
        let b = &d[off..off + k];
        off += k;
        out.push(if k == 32 {
            let mut x = [0u8; 32];
            x.copy_from_slice(b);
            r.label(&Pubkey::new_from_array(x))
        } else {
            U256::from_little_endian(b).to_string()
        });
    }
    out.join(",")
}
const OWNER: &str = "HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN";
pub fn owner_key() -> Pubkey {
    OWNER.parse().unwrap()
}

pub fn run(key: &str, a: &mut Args) -> Option<String> {
    if key != "entry" && !key.starts_with("proc.") {
        return None;
    }
    let h = head(a);
    if key == "entry" {
        return Some(entry(h, a));
    }
    let mut o = Oracle(vec![]);
    Some(match &key[5..] {
        "swap" => {
            let (amount, minimum): (u64, u64) = (n(a), n(a));
            let (c, fees) = curve_req(a);
            let (src, dst): (u64, u64) = (n(a), n(a));
            let dir = dirn(a);
            let supply: u64 = n(a);
            let al = accts(a);
            if let Some(c) = c {
                let r = quiet(|| c.swap(amount as u128, src as u128, dst as u128, dir, &fees));
                o.flag("o_swap_ok", r.is_some());
                if let Some(r) = r {
                    o.add("o_src_new", r.new_swap_source_amount);
                    o.add("o_dst_new", r.new_swap_destination_amount);
                    o.add("o_src_amt", r.source_amount_swapped);
                    o.add("o_dst_amt", r.destination_amount_swapped);
                    o.add("o_trade_fee", r.trade_fee);
                    o.add("o_owner_fee", r.owner_fee);
                    let (ra, rb) = match dir {
                        TradeDirection::AtoB => (r.new_swap_source_amount, r.new_swap_destination_amount),
                        TradeDirection::BtoA => (r.new_swap_destination_amount, r.new_swap_source_amount),
                    };
                    let w = quiet(|| c.deposit_single_token_type(r.owner_fee, ra, rb, supply as u128, dir, &fees));
                    o.flag("o_conv_ok", w.is_some());
                    o.add("o_conv", w.unwrap_or(0));
                }
            }
            execute(h, &al, true, o, |p, i| Processor::process_swap(p, amount, minimum, i))
        }
        k @ ("deposit_all" | "withdraw_all" | "deposit_one" | "withdraw_one") => {
            let all = k.ends_with("_all");
            let amount: u64 = n(a);
            let x: u64 = n(a);
            let y: u64 = if all { n(a) } else { 0 };
            let (c, fees) = curve_req(a);
            let (ra, rb, supply): (u64, u64, u64) = (n(a), n(a), n(a));
            let al = accts(a);
            if let Some(c) = c {
                let initial = c.calculator.new_pool_supply();
                o.flag("o_dep", c.calculator.allows_deposits());
                o.add("o_supply", initial);
                let (ra, rb, sup) = (ra as u128, rb as u128, supply as u128);
                let fee_account = role(&al, k, "pool_fee");
                let from_fee = fee_account.is_some() && fee_account == role(&al, k, "source");
                match k {
                    "deposit_all" => {
                        let (p, t) = if supply > 0 { (amount as u128, sup) } else { (initial, initial) };
                        share(&mut o, quiet(|| c.calculator.pool_tokens_to_trading_tokens(p, t, ra, rb, RoundDirection::Ceiling)));
                    }
                    "withdraw_all" => {
                        let f = if from_fee { Some(0) } else { quiet(|| fees.owner_withdraw_fee(amount as u128)) };
                        if let Some(p) = f.and_then(|f| (amount as u128).checked_sub(f)) {
                            share(&mut o, quiet(|| c.calculator.pool_tokens_to_trading_tokens(p, sup, ra, rb, RoundDirection::Floor)));
                        }
                    }
                    _ => {
                        let own = mint_of(&al, if k == "deposit_one" { 3 } else { 7 });
                        let dir = if own.is_some() && own == mint_of(&al, if k == "deposit_one" { 4 } else { 5 }) { TradeDirection::AtoB } else { TradeDirection::BtoA };
                        let r = quiet(|| {
                            if k == "deposit_one" {
                                c.deposit_single_token_type(amount as u128, ra, rb, sup, dir, &fees)
                            } else {
                                c.withdraw_single_token_type_exact_out(amount as u128, ra, rb, sup, dir, &fees)
                            }
                        });
                        o.flag("o_conv_ok", r.is_some());
                        o.add("o_conv", r.unwrap_or(0));
                    }
                }
            }
            execute(h, &al, true, o, |p, i| match k {
                "deposit_all" => Processor::process_deposit_all_token_types(p, amount, x, y, i),
                "withdraw_all" => Processor::process_withdraw_all_token_types(p, amount, x, y, i),
                "deposit_one" => Processor::process_deposit_single_token_type_exact_amount_in(p, amount, x, i),
                _ => Processor::process_withdraw_single_token_type_exact_amount_out(p, amount, x, i),
            })
        }
        "initialize" => {
            let given = a.next().unwrap() == "given";
            let (parse, allowed, cheap): (bool, bool, bool) = (a.next().unwrap() == "1", a.next().unwrap() == "1", a.next().unwrap() == "1");
            let fees = crate::calc::fees(a);
            let tag: u64 = n(a);
            let p = [n(a), n(a), n(a), n(a)];
            let (ra, rb): (u64, u64) = (n(a), n(a));
            let al = accts(a);
            let c = match curve(tag, p) {
                Some(c) => c,
                None => return Some("{\"ret\":[\"err\",\"unknown curve\"],\"trace\":[],\"same\":[],\"data\":[],\"oracle\":{}}".into()),
            };
            // the bytes of parameters a curve does not have are left as they were
            let used = match tag { 0 => 0, 30 => 4, _ => 1 };
            for (k, nm) in ["np0", "np1", "np2", "np3"].iter().enumerate().skip(used) {
                if let Some(x) = al.get(0).and_then(|x| x.segs.get(19 + k)) {
                    o.add(nm, &x.1);
                }
            }
            o.flag("o_supply_ok", c.calculator.validate_supply(ra, rb).is_ok());
            o.flag("o_valid", c.calculator.validate().is_ok());
            o.add("o_supply", c.calculator.new_pool_supply());
            o.add("o_owner", U256::from_little_endian(owner_key().as_ref()));
            let types = if allowed { vec![curve(tag, p).unwrap().curve_type] } else { vec![] };
            let mut cf = fees.clone();
            if !cheap {
                cf.trade_fee_denominator = cf.trade_fee_denominator.wrapping_add(1);
            }
            let con = if given { Some(SwapConstraints { owner_key: if parse { OWNER } else { "!" }, valid_curve_types: &types, fees: &cf }) } else { None };
            execute(h, &al, false, o, |p, i| Processor::process_initialize(p, fees, c, i, &con))
        }
        _ => return None,
    })
}
/// what the runtime hands to the program's entry point
struct Input {
    buf: Vec<u64>,
    at: Vec<(usize, usize)>,
}
impl Input {
    fn new(program: &Pubkey, accounts: &[AccountInfo], sig: &[bool], wri: &[bool], data: &[u8]) -> Input {
        let mut b: Vec<u8> = (accounts.len() as u64).to_le_bytes().to_vec();
        let mut at = vec![];
        for (k, a) in accounts.iter().enumerate() {
            b.extend_from_slice(&[255, sig[k] as u8, wri[k] as u8, 0, 0, 0, 0, 0]);
            b.extend_from_slice(a.key.as_ref());
            b.extend_from_slice(a.owner.as_ref());
            b.extend_from_slice(&1u64.to_le_bytes());
            let d = a.data.borrow();
            b.extend_from_slice(&(d.len() as u64).to_le_bytes());
            at.push((b.len(), d.len()));
            b.extend_from_slice(&d);
            b.extend_from_slice(&[0u8; 10240]);
            while b.len() % 8 != 0 {
                b.push(0);
            }
            b.extend_from_slice(&0u64.to_le_bytes());
        }
        b.extend_from_slice(&(data.len() as u64).to_le_bytes());
        b.extend_from_slice(data);
        b.extend_from_slice(program.as_ref());
        while b.len() % 8 != 0 {
            b.push(0);
        }
        let mut x = [0u8; 8];
        let buf = b
            .chunks(8)
            .map(|c| {
                x.copy_from_slice(c);
                u64::from_ne_bytes(x)
            })
            .collect();
        Input { buf, at }
    }
    fn start(&mut self) -> *mut u8 {
        self.buf.as_mut_ptr() as *mut u8
    }
    fn write_back(&mut self, accounts: &[AccountInfo]) {
        let p = self.start();
        for (a, (o, l)) in accounts.iter().zip(&self.at) {
            a.data.borrow_mut().copy_from_slice(unsafe { std::slice::from_raw_parts(p.add(*o), *l) });
        }
    }
}

/// the program's entry point against the operation it stands for
fn entry(h: Head, a: &mut Args) -> String {
    let name = a.next().unwrap().to_string();
    let need: usize = n(a);
    let raw = a.next().unwrap();
    let data: Vec<u8> = if raw == "-" { vec![] } else { (0..raw.len() / 2).map(|k| u8::from_str_radix(&raw[2 * k..2 * k + 2], 16).unwrap()).collect() };
    let x: Vec<u64> = (0..9).map(|_| n(a)).collect();
    let sig: Vec<bool> = (0..12).map(|_| a.next().unwrap() == "1").collect();
    let wri: Vec<bool> = (0..12).map(|_| a.next().unwrap() == "1").collect();
    let al = accts(a);
    let derive = !name.starts_with("initialize");
    let got = execute(h.clone(), &al, derive, Oracle(vec![]), |p, i| {
        let mut b = Input::new(p, i, &sig, &wri, &data);
        let code = unsafe { token_bonding_curve::entrypoint(b.start()) };
        b.write_back(i);
        if code == 0 { Ok(()) } else { Err(ProgramError::from(code)) }
    });
    let direct = execute(h, &al, derive, Oracle(vec![]), |p, given| {
        let mut b = Input::new(p, given, &sig, &wri, &data);
        let (p, all, _) = unsafe { solana_program::entrypoint::deserialize(b.start()) };
        let i = &all[..need.min(all.len())];
        let none = None;
        let r = match name.as_str() {
            "initialize_constant_price" => Processor::process_initialize(
                p,
                Fees {
                    trade_fee_numerator: x[0],
                    trade_fee_denominator: x[1],
                    owner_trade_fee_numerator: x[2],
                    owner_trade_fee_denominator: x[3],
                    owner_withdraw_fee_numerator: x[4],
                    owner_withdraw_fee_denominator: x[5],
                    host_fee_numerator: x[6],
                    host_fee_denominator: x[7],
                },
                curve(1, [x[8], 0, 0, 0]).unwrap(),
                i,
                &none,
            ),
            "initialize_linear_price" => Processor::process_initialize(
                p,
                Fees {
                    trade_fee_numerator: 0,
                    trade_fee_denominator: 1,
                    owner_trade_fee_numerator: 0,
                    owner_trade_fee_denominator: 1,
                    owner_withdraw_fee_numerator: 0,
                    owner_withdraw_fee_denominator: 1,
                    host_fee_numerator: 0,
                    host_fee_denominator: 1,
                },
                curve(30, [x[0], x[1], x[2], x[3]]).unwrap(),
                i,
                &none,
            ),
            "swap" => Processor::process_swap(p, x[0], x[1], i),
            "deposit_all_token_types" => Processor::process_deposit_all_token_types(p, x[0], x[1], x[2], i),
            "withdraw_all_token_types" => Processor::process_withdraw_all_token_types(p, x[0], x[1], x[2], i),
            "deposit_single_token_type_exact_amount_in" => Processor::process_deposit_single_token_type_exact_amount_in(p, x[0], x[1], i),
            "withdraw_single_token_type_exact_amount_out" => Processor::process_withdraw_single_token_type_exact_amount_out(p, x[0], x[1], i),
            _ => Ok(()),
        };
        b.write_back(given);
        r
    });
    let same = got == direct;
    format!("{},\"direct\":{}}}", &got[..got.len() - 1], same)
}
fn share(o: &mut Oracle, r: Option<TradingTokenResult>) {
    o.flag("o_conv_ok", r.is_some());
    if let Some(r) = r {
        o.add("o_a", r.token_a_amount);
        o.add("o_b", r.token_b_amount);
    }
}
fn mint_of(al: &[Acct], k: usize) -> Option<String> {
    al.get(k).and_then(|x| x.segs.get(0)).map(|x| x.1.clone())
}
fn role(al: &[Acct], k: &str, r: &str) -> Option<String> {
    let at = match (k, r) {
        ("withdraw_all", "pool_fee") => 9,
        ("withdraw_one", "pool_fee") => 8,
        (_, "source") => 4,
        _ => return None,
    };
    al.get(at).map(|x| x.key.clone())
}
/// a curve that panics answers nothing here (its own properties say it must not)
pub fn quiet<T>(f: impl FnOnce() -> Option<T>) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(None)
}
