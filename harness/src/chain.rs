//! The closed environment: key-value storage, an address validator that tells native
//! denominations from contract addresses, a token ledger that executes the messages the
//! contract emits, and a clock. A transaction that fails (error, panic or a payment that
//! cannot be made) leaves everything as it was.
use cosmwasm_std::{
    from_binary, Addr, Api, BankMsg, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo, CosmosMsg,
    Deps, DepsMut, Empty, Env, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper,
    RecoverPubkeyError, Response, StdError, StdResult, Storage, Timestamp, TransactionInfo, Uint128,
    VerificationError, WasmMsg,
};
use cw20::Cw20ExecuteMsg;
use oraiswap_v3::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use oraiswap_v3::percentage::Percentage;
use serde::de::DeserializeOwned;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const ACCTS: [&str; 7] = [
    "orai1contract",
    "orai1admin",
    "orai1alice",
    "orai1bob",
    "orai1carol",
    "orai1dave",
    "orai1vault",
];
pub const CONTRACT: usize = 0;
pub const ADMIN: usize = 1;
pub const ALICE: usize = 2;
pub const BOB: usize = 3;
pub const CAROL: usize = 4;
pub const DAVE: usize = 5;
pub const VAULT: usize = 6;
pub const NA: usize = ACCTS.len();

/// tokens in lexicographic order; names starting with orai1 are cw20 contracts, others native
pub const TOKENS: [&str; 6] = ["USDT", "orai1tka", "orai1tkb", "orai1tkc", "usdt", "usdtz"];
pub const T_ATOM: usize = 0; // native
pub const T_A: usize = 1;
pub const T_B: usize = 2;
pub const T_C: usize = 3;
pub const T_USDT: usize = 4; // native
pub const T_Z: usize = 5; // native
pub const NT: usize = TOKENS.len();
pub fn is_native(t: usize) -> bool {
    !TOKENS[t].starts_with("orai1")
}
pub fn acct_id(s: &str) -> Option<usize> {
    ACCTS.iter().position(|a| *a == s)
}
pub fn token_id(s: &str) -> Option<usize> {
    TOKENS.iter().position(|a| *a == s)
}
pub fn addr(a: usize) -> Addr {
    Addr::unchecked(ACCTS[a])
}

#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct Kv(pub BTreeMap<Arc<[u8]>, Arc<[u8]>>);

impl Storage for Kv {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).map(|v| v.to_vec())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.insert(key.into(), value.into());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = (Vec<u8>, Vec<u8>)> + 'a> {
        use std::ops::Bound;
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::<Arc<[u8]>>::Included(s.into()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::<Arc<[u8]>>::Excluded(s.into()));
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.to_vec(), v.to_vec()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

#[derive(Clone, Copy)]
pub struct TApi;
impl Api for TApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.starts_with("orai1") {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(CanonicalAddr(Binary::from(human.as_bytes())))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8(canonical.to_vec())?))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}
struct NoQ;
impl Querier for NoQ {
    fn raw_query(&self, _: &[u8]) -> QuerierResult {
        panic!("the contract queries the chain")
    }
}

pub type Ledger = [[u128; NT]; NA];

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct World {
    pub kv: Kv,
    pub ledger: Ledger,
    /// milliseconds since the start
    pub now: u64,
    pub height: u64,
}

#[derive(Clone, Debug, Default)]
pub struct TxOut {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    pub attrs: Vec<(String, String)>,
    /// messages to contracts other than token contracts: (contract, payload)
    pub calls: Vec<(String, Binary)>,
    /// bank sends (recipient, token, amount), in order; used to count refunds
    pub sends: Vec<(usize, usize, u128)>,
}
impl TxOut {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    fn fail(e: String) -> Self {
        TxOut { ok: false, err: e, ..Default::default() }
    }
}

thread_local! { static QUIET: Cell<bool> = Cell::new(false); }

/// one per thread that calls code under test: odd while a call is under way
#[derive(Default)]
pub struct Slot {
    count: AtomicU64,
    /// the exploration watches its own threads and can tell the history
    watched: AtomicBool,
    what: Mutex<Option<(usize, ExecuteMsg)>>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
thread_local! { static SLOT: Arc<Slot> = {
    let s = Arc::new(Slot::default());
    SLOTS.lock().unwrap().push(s.clone());
    s
}; }
pub fn thread_is_watched() {
    SLOT.with(|s| s.watched.store(true, Relaxed));
}
/// reports a call into the code under test that does not return within `secs`
pub fn start_watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, u64)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let slots = SLOTS.lock().unwrap();
            seen.resize(slots.len(), (0, 0));
            for (s, e) in slots.iter().zip(seen.iter_mut()) {
                let c = s.count.load(Relaxed);
                if c % 2 == 1 && c == e.0 && !s.watched.load(Relaxed) {
                    e.1 += 1;
                    if e.1 >= secs {
                        let what = match s.what.try_lock() {
                            Ok(w) => w.as_ref().map(|(a, m)| format!("{}: {m:?}", ACCTS[*a])),
                            Err(_) => None,
                        };
                        crate::report::hang("setup or sweep", vec![what.unwrap_or_default()]);
                    }
                } else {
                    *e = (c, 0);
                }
            }
        }
    });
}
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            // a panic outside the contract is a fault of this program: no verdict
            prev(i);
            std::process::exit(3)
        }
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    if !old {
        SLOT.with(|s| s.count.fetch_add(1, Relaxed));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if !old {
        SLOT.with(|s| s.count.fetch_add(1, Relaxed));
    }
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub const T0: u64 = 1_700_000_000_000; // ms
pub const H0: u64 = 1000;
pub const START_BALANCE: u128 = 100_000_000_000_000_000_000_000_000_000_000_000; // 1e35

impl World {
    /// instantiates the contract as `ADMIN`
    pub fn new(protocol_fee: u64) -> World {
        let mut w = World { kv: Kv::default(), ledger: [[0; NT]; NA], now: T0, height: H0 };
        for a in 1..NA {
            for t in 0..NT {
                w.ledger[a][t] = START_BALANCE;
            }
        }
        let env = w.env();
        let info = MessageInfo { sender: addr(ADMIN), funds: vec![] };
        let q = NoQ;
        let deps = DepsMut { storage: &mut w.kv, api: &TApi, querier: QuerierWrapper::<Empty>::new(&q) };
        oraiswap_v3::contract::instantiate(
            deps,
            env,
            info,
            InstantiateMsg { protocol_fee: {
                use decimal::Decimal;
                Percentage::new(protocol_fee)
            } },
        )
        .expect("instantiate");
        w
    }
    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.now * 1_000_000 + 654_321),
                chain_id: "mc".into(),
            },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: addr(CONTRACT) },
        }
    }
    fn pay(&mut self, from: usize, to: usize, t: usize, amt: u128) -> Result<(), String> {
        let f = &mut self.ledger[from][t];
        *f = f.checked_sub(amt).ok_or_else(|| {
            format!("insufficient balance: {} pays {} of {}", ACCTS[from], amt, TOKENS[t])
        })?;
        self.ledger[to][t] = self.ledger[to][t].checked_add(amt).ok_or("ledger overflow")?;
        Ok(())
    }
    /// one transaction; `funds` are (native token, amount)
    pub fn exec(&mut self, sender: usize, msg: &ExecuteMsg, funds: &[(usize, u128)]) -> TxOut {
        let backup = self.clone();
        let out = self.exec_inner(sender, msg, funds);
        if !out.ok {
            *self = backup;
        }
        out
    }
    /// the contract is migrated to the code under test
    pub fn migrate(&mut self) -> Result<(), String> {
        let env = self.env();
        let q = NoQ;
        let kv = &mut self.kv;
        let r = guarded(move || {
            let deps = DepsMut { storage: kv, api: &TApi, querier: QuerierWrapper::<Empty>::new(&q) };
            oraiswap_v3::contract::migrate(deps, env, oraiswap_v3::msg::MigrateMsg {})
        })?;
        let r = r.map_err(|e| e.to_string())?;
        if r.messages.is_empty() {
            Ok(())
        } else {
            Err(format!("it sends {:?}", r.messages))
        }
    }
    /// runs the contract alone: whatever it asks the chain to do afterwards is dropped
    pub fn exec_alone(&mut self, sender: usize, msg: &ExecuteMsg, coins: Vec<Coin>) -> Result<(), String> {
        let env = self.env();
        let info = MessageInfo { sender: addr(sender), funds: coins };
        let q = NoQ;
        let mut kv = self.kv.clone();
        let r = guarded(|| {
            let deps = DepsMut { storage: &mut kv, api: &TApi, querier: QuerierWrapper::<Empty>::new(&q) };
            oraiswap_v3::contract::execute(deps, env, info, msg.clone())
        });
        match r {
            Err(p) => Err(format!("panic: {p}")),
            Ok(Err(e)) => Err(e.to_string()),
            Ok(Ok(_)) => {
                self.kv = kv;
                Ok(())
            }
        }
    }
    fn exec_inner(&mut self, sender: usize, msg: &ExecuteMsg, funds: &[(usize, u128)]) -> TxOut {
        let mut coins = vec![];
        for (t, a) in funds {
            if *a == 0 {
                continue;
            }
            if let Err(e) = self.pay(sender, CONTRACT, *t, *a) {
                return TxOut::fail(e);
            }
            coins.push(Coin { denom: TOKENS[*t].into(), amount: Uint128::new(*a) });
        }
        let env = self.env();
        let info = MessageInfo { sender: addr(sender), funds: coins };
        let q = NoQ;
        let kv = &mut self.kv;
        let msg = msg.clone();
        SLOT.with(|s| *s.what.lock().unwrap() = Some((sender, msg.clone())));
        let r = guarded(move || {
            let deps = DepsMut { storage: kv, api: &TApi, querier: QuerierWrapper::<Empty>::new(&q) };
            oraiswap_v3::contract::execute(deps, env, info, msg)
        });
        let resp: Response = match r {
            Err(p) => return TxOut { panicked: true, ..TxOut::fail(format!("panic: {p}")) },
            Ok(Err(e)) => return TxOut::fail(e.to_string()),
            Ok(Ok(r)) => r,
        };
        let mut out = TxOut { ok: true, ..Default::default() };
        out.attrs = resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect();
        for m in resp.messages {
            if let Err(e) = self.deliver(m.msg, &mut out) {
                return TxOut::fail(e);
            }
        }
        out
    }
    fn deliver(&mut self, m: CosmosMsg, out: &mut TxOut) -> Result<(), String> {
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let to = acct_id(&to_address).ok_or_else(|| format!("payment to unknown account {to_address}"))?;
                if amount.is_empty() {
                    return Err("empty bank send".into());
                }
                for c in amount {
                    let t = token_id(&c.denom).filter(|t| is_native(*t)).ok_or("unknown denom")?;
                    if c.amount.is_zero() {
                        return Err("bank send of a zero amount".into());
                    }
                    self.pay(CONTRACT, to, t, c.amount.u128())?;
                    out.sends.push((to, t, c.amount.u128()));
                }
                Ok(())
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                if !funds.is_empty() {
                    return Err("unexpected funds on a contract call".into());
                }
                match token_id(&contract_addr).filter(|t| !is_native(*t)) {
                    Some(t) => match from_binary::<Cw20ExecuteMsg>(&msg).map_err(|e| e.to_string())? {
                        Cw20ExecuteMsg::Transfer { recipient, amount } => {
                            let to = acct_id(&recipient).ok_or_else(|| format!("payment to unknown account {recipient}"))?;
                            if amount.is_zero() {
                                return Err("Invalid zero amount".into());
                            }
                            self.pay(CONTRACT, to, t, amount.u128())?;
                            out.sends.push((to, t, amount.u128()));
                            Ok(())
                        }
                        Cw20ExecuteMsg::TransferFrom { owner, recipient, amount } => {
                            let from = acct_id(&owner).ok_or("pull from unknown account")?;
                            let to = acct_id(&recipient).ok_or_else(|| format!("payment to unknown account {recipient}"))?;
                            if amount.is_zero() {
                                return Err("Invalid zero amount".into());
                            }
                            self.pay(from, to, t, amount.u128())
                        }
                        _ => Err("unexpected token message".into()),
                    },
                    None => {
                        out.calls.push((contract_addr, msg));
                        Ok(())
                    }
                }
            }
            _ => Err("unexpected message kind".into()),
        }
    }
    pub fn query_raw(&self, msg: QueryMsg) -> Result<Binary, String> {
        let env = self.env();
        let kv = &self.kv;
        let q = NoQ;
        guarded(move || {
            let deps = Deps { storage: kv, api: &TApi, querier: QuerierWrapper::<Empty>::new(&q) };
            oraiswap_v3::contract::query(deps, env, msg)
        })
        .map_err(|p| format!("panic: {p}"))?
        .map_err(|e| e.to_string())
    }
    pub fn query<T: DeserializeOwned>(&self, msg: QueryMsg) -> Result<T, String> {
        let bin = self.query_raw(msg)?;
        from_binary(&bin).map_err(|e| format!("undecodable: {e}"))
    }
}
