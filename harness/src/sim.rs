//! A small deterministic CosmWasm chain: executes the real contract entry
//! points (and adversarial stubs) with wasmd semantics and records a complete
//! trace of every message, query and bank effect at the contract boundary.
use cosmwasm_std::{
    from_json, testing::MockApi, to_json_binary, Addr, AllBalanceResponse, Api, BalanceResponse,
    BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo, ContractResult,
    CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo, Order, Querier, QuerierResult,
    QuerierWrapper, QueryRequest, RecoverPubkeyError, Record, Reply, ReplyOn, Response, StdError,
    StdResult, Storage, SubMsg, SubMsgResponse, SubMsgResult, SupplyResponse, SystemError,
    SystemResult, Timestamp, TransactionInfo, Uint128, VerificationError, WasmMsg, WasmQuery,
};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const MAX_DEPTH: u32 = 40;

/// storage work done by the contracts since the counter was last reset
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Cost {
    pub reads: u64,
    pub read_bytes: u64,
    pub writes: u64,
    pub write_bytes: u64,
    /// messages, events and answers produced
    pub out_bytes: u64,
    pub calls: u64,
}

/// everything the contracts of all chains did since the tap was opened, as hashes in order
#[derive(Default)]
pub struct Tap {
    pub seen: Vec<u64>,
    /// also keep the text of this range
    pub text_from: usize,
    pub text: Vec<String>,
}

thread_local! {
    pub static COST: Cell<Cost> = const { Cell::new(Cost { reads: 0, read_bytes: 0, writes: 0, write_bytes: 0, out_bytes: 0, calls: 0 }) };
    pub static TAP: RefCell<Option<Tap>> = const { RefCell::new(None) };
}
fn cost(f: impl FnOnce(&mut Cost)) {
    COST.with(|c| {
        let mut x = c.get();
        f(&mut x);
        c.set(x)
    })
}
fn tap(parts: &[&[u8]], text: impl FnOnce() -> String) {
    TAP.with(|t| {
        if let Some(t) = t.borrow_mut().as_mut() {
            let mut h = 0xcbf29ce484222325u64;
            for p in parts {
                for x in p.iter().chain(&(p.len() as u32).to_be_bytes()) {
                    h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
                }
            }
            if t.seen.len() >= t.text_from && t.text.len() < 4 {
                t.text.push(text());
            }
            t.seen.push(h);
        }
    })
}

thread_local! {
    pub static IN_CONTRACT: Cell<u32> = const { Cell::new(0) };
}

/// Contract panics are VM aborts, not harness failures: keep them quiet.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CONTRACT.with(|c| c.get()) == 0 {
            default(info)
        }
    }));
}

fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    IN_CONTRACT.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CONTRACT.with(|c| c.set(c.get() - 1));
    match r {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err(format!("abort: {m}"))
        }
    }
}

/// Runs `f` treating a panic inside as an abort (used for direct library calls).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(|| Ok(f()))
}

type InstFn = fn(DepsMut, Env, MessageInfo, &[u8]) -> Result<Response, String>;
type QueryFn = fn(Deps, Env, &[u8]) -> Result<Binary, String>;
type ReplyFn = fn(DepsMut, Env, Reply) -> Result<Response, String>;
type MigrateFn = fn(DepsMut, Env, &[u8]) -> Result<Response, String>;

#[derive(Clone)]
pub struct RealCode {
    pub name: &'static str,
    pub inst: InstFn,
    pub exec: InstFn,
    pub query: QueryFn,
    pub reply: Option<ReplyFn>,
    pub migrate: Option<MigrateFn>,
}

pub struct StubCtx<'a> {
    pub chain: &'a Chain,
    pub me: String,
    pub sender: String,
    pub funds: Vec<Coin>,
}

/// Adversarial / configurable counterpart contracts, written in the harness.
pub trait Stub {
    fn execute(&self, ctx: &StubCtx, msg: &Value) -> Result<Response, String>;
    fn query(&self, ctx: &StubCtx, msg: &Value) -> Result<Value, String>;
    fn reply(&self, _ctx: &StubCtx, _reply: Reply) -> Result<Response, String> {
        Ok(Response::new())
    }
}

#[derive(Clone)]
pub enum Code {
    Real(Rc<RealCode>),
    Stub(Rc<dyn Stub>),
}

struct Inst {
    code: Code,
    kv: BTreeMap<Vec<u8>, Vec<u8>>,
}

#[derive(Default)]
struct State {
    contracts: BTreeMap<String, Inst>,
    bank: BTreeMap<(String, String), u128>,
    supply: BTreeMap<String, u128>,
    factory: BTreeMap<String, String>,
}

enum Undo {
    Kv(String, Vec<u8>, Option<Vec<u8>>),
    Bank(String, String, u128),
    Supply(String, u128),
    New(String),
    Factory(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Exec,
    Inst,
    Query,
    Reply,
    Migrate,
    BankSend,
    BankBurn,
    TfCreate,
    TfMint,
    TfBurn,
    TfMeta,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub tx: u64,
    pub parent: Option<usize>,
    pub depth: u32,
    pub kind: Kind,
    pub from: String,
    pub to: String,
    pub msg: Vec<u8>,
    pub funds: Vec<Coin>,
    pub ok: bool,
    pub out: Vec<u8>,
    pub err: String,
    pub reverted: bool,
    pub events: Vec<Event>,
}

impl Ev {
    pub fn json(&self) -> Value {
        serde_json::from_slice(&self.msg).unwrap_or(Value::Null)
    }
    pub fn out_json(&self) -> Value {
        serde_json::from_slice(&self.out).unwrap_or(Value::Null)
    }
    pub fn committed(&self) -> bool {
        self.ok && !self.reverted
    }
}

#[derive(Clone, Debug)]
pub struct TxOk {
    pub data: Option<Binary>,
    pub start: usize,
    pub end: usize,
    pub events: Vec<(String, Event)>,
}

pub type TxRes = Result<TxOk, String>;

pub struct Chain {
    pub hrp: String,
    pub chain_id: String,
    st: RefCell<State>,
    journal: RefCell<Vec<Undo>>,
    pub trace: RefCell<Vec<Ev>>,
    stack: RefCell<Vec<usize>>,
    codes: RefCell<BTreeMap<u64, Code>>,
    pub height: Cell<u64>,
    /// every further transaction in this very block
    pub held: Cell<bool>,
    /// nanoseconds since the beginning, and the number of the transaction in its block
    pub clock: Cell<u64>,
    pub txidx: Cell<Option<u32>>,
    /// how blocks follow each other (0: one transaction a block, every 6 seconds)
    pub pace: Cell<u64>,
    txno: Cell<u64>,
    depth: Cell<u32>,
    next_addr: Cell<u64>,
    /// when set, the n-th executed sub-call fails (fault injection)
    pub fail_at: Cell<Option<u64>>,
    calls: Cell<u64>,
    /// when set, the n-th message a contract emits in a transaction fails, of whatever sort
    pub fail_msg: Cell<Option<u64>>,
    msgs: Cell<u64>,
    /// when set, the n-th question a contract asks in a transaction is answered with an error
    pub fail_query: Cell<Option<u64>>,
    asked: Cell<u64>,
    /// what clients did and asked, and what came of it
    pub tape: RefCell<Option<Vec<Value>>>,
}

pub fn sha(b: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(b).into()
}

pub fn b32(hrp: &str, raw: &[u8]) -> String {
    use bech32::ToBase32;
    bech32::encode(hrp, raw.to_base32(), bech32::Variant::Bech32).unwrap()
}

pub fn unb32(a: &str) -> Result<(String, Vec<u8>), String> {
    use bech32::FromBase32;
    let (hrp, d, v) = bech32::decode(a).map_err(|e| e.to_string())?;
    if v != bech32::Variant::Bech32 {
        return Err("not bech32".into());
    }
    Ok((hrp, Vec::<u8>::from_base32(&d).map_err(|e| e.to_string())?))
}

pub struct ChainApi {
    hrp: String,
    mock: MockApi,
}

impl Api for ChainApi {
    fn addr_validate(&self, input: &str) -> StdResult<Addr> {
        let (hrp, raw) = unb32(input).map_err(StdError::generic_err)?;
        if hrp != self.hrp || (raw.len() != 20 && raw.len() != 32) || input != b32(&hrp, &raw) {
            return Err(StdError::generic_err("invalid address"));
        }
        Ok(Addr::unchecked(input))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(unb32(human).unwrap().1.into())
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(b32(&self.hrp, canonical)))
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        self.mock.secp256k1_verify(h, s, p)
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], r: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        self.mock.secp256k1_recover_pubkey(h, s, r)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        self.mock.ed25519_verify(m, s, p)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], p: &[&[u8]]) -> Result<bool, VerificationError> {
        self.mock.ed25519_batch_verify(m, s, p)
    }
    fn debug(&self, _message: &str) {}
}

struct Kv<'a> {
    chain: &'a Chain,
    addr: String,
    ro: bool,
}

impl Storage for Kv<'_> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        let v = self.chain.st.borrow().contracts.get(&self.addr)?.kv.get(key).cloned();
        cost(|c| {
            c.reads += 1;
            c.read_bytes += (key.len() + v.as_ref().map_or(0, |v| v.len())) as u64;
        });
        v
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let st = self.chain.st.borrow();
        let Some(i) = st.contracts.get(&self.addr) else { return Box::new(std::iter::empty()) };
        if let (Some(s), Some(e)) = (start, end) {
            if s > e {
                return Box::new(std::iter::empty());
            }
        }
        use std::ops::Bound::*;
        let lo = start.map_or(Unbounded, |v| Included(v.to_vec()));
        let hi = end.map_or(Unbounded, |v| Excluded(v.to_vec()));
        let mut v: Vec<Record> =
            i.kv.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if order == Order::Descending {
            v.reverse();
        }
        // the VM charges each item as it is visited
        Box::new(v.into_iter().inspect(|(k, v)| {
            cost(|c| {
                c.reads += 1;
                c.read_bytes += (k.len() + v.len()) as u64;
            })
        }))
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!self.ro, "write in query");
        if value.is_empty() {
            panic!("empty value"); // as the VM does
        }
        cost(|c| {
            c.writes += 1;
            c.write_bytes += (key.len() + value.len()) as u64;
        });
        tap(&[b"set", self.addr.as_bytes(), key, value], || format!("{} stores {} = {}", self.addr, String::from_utf8_lossy(key), String::from_utf8_lossy(value)));
        self.chain.kv_write(&self.addr, key, Some(value.to_vec()));
    }
    fn remove(&mut self, key: &[u8]) {
        assert!(!self.ro, "write in query");
        cost(|c| c.writes += 1);
        tap(&[b"remove", self.addr.as_bytes(), key], || format!("{} removes {}", self.addr, String::from_utf8_lossy(key)));
        self.chain.kv_write(&self.addr, key, None);
    }
}

struct Q<'a> {
    chain: &'a Chain,
    me: String,
}

impl Querier for Q<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        self.chain.handle_query(&self.me, req)
    }
}

impl Chain {
    pub fn new(hrp: &str) -> Self {
        Chain {
            hrp: hrp.into(),
            chain_id: format!("{hrp}-1"),
            st: Default::default(),
            journal: Default::default(),
            trace: Default::default(),
            stack: Default::default(),
            codes: Default::default(),
            height: Cell::new(1000),
            held: Cell::new(false),
            clock: Cell::new(6_000_000_000_000),
            txidx: Cell::new(Some(0)),
            pace: Cell::new(0),
            txno: Cell::new(0),
            depth: Cell::new(0),
            next_addr: Cell::new(1),
            fail_at: Cell::new(None),
            calls: Cell::new(0),
            fail_msg: Cell::new(None),
            msgs: Cell::new(0),
            fail_query: Cell::new(None),
            asked: Cell::new(0),
            tape: RefCell::new(None),
        }
    }
    pub fn api(&self) -> ChainApi {
        ChainApi { hrp: self.hrp.clone(), mock: MockApi::default() }
    }
    /// deterministic 20-byte user account
    pub fn user(&self, name: &str) -> String {
        b32(&self.hrp, &sha(format!("user/{name}").as_bytes())[..20])
    }
    pub fn addr_of(&self, raw: &[u8]) -> String {
        b32(&self.hrp, raw)
    }
    pub fn is_contract(&self, a: &str) -> bool {
        self.st.borrow().contracts.contains_key(a)
    }
    pub fn store_code(&self, id: u64, c: Code) {
        self.codes.borrow_mut().insert(id, c);
    }
    fn env(&self, me: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.height.get(),
                time: Timestamp::from_nanos(1_700_000_000_000_000_000 + self.clock.get()),
                chain_id: self.chain_id.clone(),
            },
            transaction: self.txidx.get().map(|index| TransactionInfo { index }),
            contract: ContractInfo { address: Addr::unchecked(me) },
        }
    }

    // ---- state with undo journal
    fn kv_write(&self, addr: &str, key: &[u8], val: Option<Vec<u8>>) {
        let mut st = self.st.borrow_mut();
        let kv = &mut st.contracts.get_mut(addr).unwrap().kv;
        let old = match val {
            Some(v) => kv.insert(key.to_vec(), v),
            None => kv.remove(key),
        };
        self.journal.borrow_mut().push(Undo::Kv(addr.into(), key.to_vec(), old));
    }
    fn bank_set(&self, a: &str, d: &str, v: u128) {
        let mut st = self.st.borrow_mut();
        let k = (a.to_string(), d.to_string());
        let old = if v == 0 { st.bank.remove(&k) } else { st.bank.insert(k, v) };
        self.journal.borrow_mut().push(Undo::Bank(a.into(), d.into(), old.unwrap_or(0)));
    }
    fn supply_set(&self, d: &str, v: u128) {
        let old = self.st.borrow_mut().supply.insert(d.into(), v);
        self.journal.borrow_mut().push(Undo::Supply(d.into(), old.unwrap_or(0)));
    }
    fn snap(&self) -> (usize, usize) {
        (self.journal.borrow().len(), self.trace.borrow().len())
    }
    fn rollback(&self, s: (usize, usize)) {
        {
            let mut j = self.journal.borrow_mut();
            let mut st = self.st.borrow_mut();
            while j.len() > s.0 {
                match j.pop().unwrap() {
                    Undo::Kv(a, k, old) => {
                        if let Some(i) = st.contracts.get_mut(&a) {
                            match old {
                                Some(v) => i.kv.insert(k, v),
                                None => i.kv.remove(&k),
                            };
                        }
                    }
                    Undo::Bank(a, d, v) => {
                        if v == 0 {
                            st.bank.remove(&(a, d));
                        } else {
                            st.bank.insert((a, d), v);
                        }
                    }
                    Undo::Supply(d, v) => {
                        st.supply.insert(d, v);
                    }
                    Undo::New(a) => {
                        st.contracts.remove(&a);
                    }
                    Undo::Factory(d) => {
                        st.factory.remove(&d);
                    }
                }
            }
        }
        for e in self.trace.borrow_mut()[s.1..].iter_mut() {
            if e.kind != Kind::Query {
                e.reverted = true;
            }
        }
    }
    pub fn dump(&self, addr: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.st.borrow().contracts.get(addr).map(|i| i.kv.clone()).unwrap_or_default()
    }
    pub fn raw_get(&self, addr: &str, key: &[u8]) -> Option<Vec<u8>> {
        self.st.borrow().contracts.get(addr)?.kv.get(key).cloned()
    }
    pub fn raw_set(&self, addr: &str, key: &[u8], v: Option<Vec<u8>>) {
        self.kv_write(addr, key, v);
        self.journal.borrow_mut().clear();
    }

    // ---- bank
    pub fn balance(&self, a: &str, d: &str) -> u128 {
        *self.st.borrow().bank.get(&(a.to_string(), d.to_string())).unwrap_or(&0)
    }
    pub fn balances(&self, a: &str) -> Vec<Coin> {
        self.st
            .borrow()
            .bank
            .iter()
            .filter(|((x, _), v)| x == a && **v > 0)
            .map(|((_, d), v)| Coin::new(*v, d.clone()))
            .collect()
    }
    pub fn all_balances(&self) -> BTreeMap<(String, String), u128> {
        self.st.borrow().bank.clone()
    }
    pub fn supply(&self, d: &str) -> u128 {
        *self.st.borrow().supply.get(d).unwrap_or(&0)
    }
    /// genesis / faucet mint
    pub fn faucet(&self, a: &str, d: &str, v: u128) -> bool {
        if v == 0 {
            return true;
        }
        self.note(|| serde_json::json!({"faucet":[a, d, v.to_string()]}));
        let (Some(nb), Some(ns)) = (self.balance(a, d).checked_add(v), self.supply(d).checked_add(v))
        else {
            return false;
        };
        self.bank_set(a, d, nb);
        self.supply_set(d, ns);
        true
    }
    /// an account sends some of its coins
    pub fn send(&self, from: &str, to: &str, d: &str, v: u128) -> Result<(), String> {
        self.transfer(from, to, &[Coin::new(v, d)])
    }
    fn transfer(&self, from: &str, to: &str, coins: &[Coin]) -> Result<(), String> {
        for c in coins {
            let amt = c.amount.u128();
            let fb = self.balance(from, &c.denom);
            if fb < amt {
                return Err(format!("insufficient funds: {} < {}{}", fb, amt, c.denom));
            }
            self.bank_set(from, &c.denom, fb - amt);
            let tb = self.balance(to, &c.denom).checked_add(amt).ok_or("bank overflow")?;
            self.bank_set(to, &c.denom, tb);
        }
        Ok(())
    }
    fn add_up(funds: Vec<Coin>) -> Result<Vec<Coin>, String> {
        let mut m: std::collections::BTreeMap<String, cosmwasm_std::Uint128> = Default::default();
        for c in funds {
            let x = m.entry(c.denom).or_default();
            *x = x.checked_add(c.amount).map_err(|e| e.to_string())?;
        }
        Ok(m.into_iter().map(|(denom, amount)| Coin { denom, amount }).collect())
    }
    fn clean_funds(funds: Vec<Coin>) -> Result<Vec<Coin>, String> {
        // wasmd converts to sdk.Coins: zero amounts vanish, sorted, duplicates rejected
        let mut v: Vec<Coin> = funds.into_iter().filter(|c| !c.amount.is_zero()).collect();
        v.sort_by(|a, b| a.denom.cmp(&b.denom));
        if v.windows(2).any(|w| w[0].denom == w[1].denom) {
            return Err("duplicate denom".into());
        }
        if v.iter().any(|c| c.denom.is_empty()) {
            return Err("invalid denom".into());
        }
        Ok(v)
    }

    // ---- trace
    fn push_ev(&self, kind: Kind, from: &str, to: &str, msg: Vec<u8>, funds: Vec<Coin>) -> usize {
        let mut t = self.trace.borrow_mut();
        t.push(Ev {
            tx: self.txno.get(),
            parent: self.stack.borrow().last().copied(),
            depth: self.stack.borrow().len() as u32,
            kind,
            from: from.into(),
            to: to.into(),
            msg,
            funds,
            ok: false,
            out: vec![],
            err: String::new(),
            reverted: false,
            events: vec![],
        });
        t.len() - 1
    }
    fn close_ev(&self, i: usize, r: Result<Vec<u8>, &String>) {
        let mut t = self.trace.borrow_mut();
        {
            let e = &t[i];
            let (ok, out): (u8, &[u8]) = match &r {
                Ok(o) => (1, o),
                Err(_) => (0, &[]),
            };
            cost(|c| {
                c.calls += 1;
                c.out_bytes += (e.msg.len() + out.len() + e.events.iter().flat_map(|e| &e.attributes).map(|a| a.key.len() + a.value.len()).sum::<usize>()) as u64;
            });
            // the text of an error is no part of the outcome
            let said = || format!("{:?} {:?} {:?}", e.kind, e.funds, if ok == 1 { Some(&e.events) } else { None });
            if TAP.with(|t| t.borrow().is_some()) {
                let s = said();
                tap(&[b"call", s.as_bytes(), e.from.as_bytes(), e.to.as_bytes(), &e.msg, &[ok], out], || {
                    format!("{} -> {} {} : {} {} {s}", e.from, e.to, String::from_utf8_lossy(&e.msg), ok, String::from_utf8_lossy(out))
                });
            }
        }
        match r {
            Ok(o) => {
                t[i].ok = true;
                t[i].out = o;
            }
            Err(e) => {
                t[i].ok = false;
                t[i].err = e.clone();
            }
        }
    }
    pub fn clear_trace(&self) {
        self.trace.borrow_mut().clear();
    }

    // ---- queries
    fn handle_query(&self, me: &str, req: QueryRequest<Empty>) -> QuerierResult {
        self.asked.set(self.asked.get() + 1);
        if self.fail_query.get() == Some(self.asked.get()) {
            return SystemResult::Ok(ContractResult::Err("injected fault".into()));
        }
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.balance(&address, &denom);
                SystemResult::Ok(ContractResult::Ok(
                    to_json_binary(&{
                        let mut r: BalanceResponse = serde_json::from_value(
                            serde_json::json!({"amount":{"denom":denom,"amount":"0"}}),
                        )
                        .unwrap();
                        r.amount.amount = Uint128::new(a);
                        r
                    })
                    .unwrap(),
                ))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let coins = self.balances(&address);
                let mut r: AllBalanceResponse =
                    serde_json::from_value(serde_json::json!({"amount":[]})).unwrap();
                r.amount = coins;
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let s = self.supply(&denom);
                let mut r: SupplyResponse = serde_json::from_value(
                    serde_json::json!({"amount":{"denom":denom,"amount":"0"}}),
                )
                .unwrap();
                r.amount.amount = Uint128::new(s);
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if !self.is_contract(&contract_addr) {
                    let i = self.push_ev(Kind::Query, me, &contract_addr, msg.to_vec(), vec![]);
                    self.close_ev(i, Err(&"no such contract".to_string()));
                    return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr });
                }
                match self.smart(me, &contract_addr, &msg) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                match self.raw_get(&contract_addr, &key) {
                    Some(v) => SystemResult::Ok(ContractResult::Ok(v.into())),
                    None => SystemResult::Ok(ContractResult::Ok(Binary::default())),
                }
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "unsupported".into() }),
        }
    }
    fn smart(&self, me: &str, to: &str, msg: &[u8]) -> Result<Binary, String> {
        let i = self.push_ev(Kind::Query, me, to, msg.to_vec(), vec![]);
        if self.depth.get() >= MAX_DEPTH {
            let e = "query depth".to_string();
            self.close_ev(i, Err(&e));
            return Err(e);
        }
        self.depth.set(self.depth.get() + 1);
        self.stack.borrow_mut().push(i);
        let code = self.st.borrow().contracts.get(to).map(|c| c.code.clone());
        let r = match code {
            None => Err("no such contract".to_string()),
            Some(Code::Real(c)) => {
                let kv = Kv { chain: self, addr: to.into(), ro: true };
                let api = self.api();
                let q = Q { chain: self, me: to.into() };
                guarded(|| {
                    (c.query)(
                        Deps { storage: &kv, api: &api, querier: QuerierWrapper::new(&q) },
                        self.env(to),
                        msg,
                    )
                })
            }
            Some(Code::Stub(s)) => {
                let ctx = StubCtx { chain: self, me: to.into(), sender: me.into(), funds: vec![] };
                let v: Value = serde_json::from_slice(msg).unwrap_or(Value::Null);
                guarded(|| s.query(&ctx, &v).map(|o| Binary(serde_json::to_vec(&o).unwrap())))
            }
        };
        self.stack.borrow_mut().pop();
        self.depth.set(self.depth.get() - 1);
        self.close_ev(i, r.as_ref().map(|b| b.to_vec()));
        r
    }
    /// external query with JSON
    pub fn query(&self, to: &str, msg: Value) -> Result<Value, String> {
        let n = self.trace.borrow().len();
        let r = self.smart("client", to, &serde_json::to_vec(&msg).unwrap());
        self.trace.borrow_mut().truncate(n);
        self.note(|| serde_json::json!({"query":to,"msg":msg,"answer":r.as_ref().ok().map(|b| serde_json::from_slice::<Value>(b).unwrap_or_default())}));
        let b = r?;
        serde_json::from_slice(&b).map_err(|e| format!("bad response json: {e}"))
    }
    /// external query that keeps its trace
    pub fn query_traced(&self, to: &str, msg: Value) -> Result<Value, String> {
        let b = self.smart("client", to, &serde_json::to_vec(&msg).unwrap())?;
        serde_json::from_slice(&b).map_err(|e| format!("bad response json: {e}"))
    }

    // ---- messages
    fn call(&self, kind: Kind, from: &str, to: &str, msg: &[u8], funds: Vec<Coin>) -> Result<(Option<Binary>, Vec<(String, Event)>), String> {
        let i = self.push_ev(kind, from, to, msg.to_vec(), funds.clone());
        let r = self.call_inner(i, kind, from, to, msg, funds);
        self.close_ev(i, r.as_ref().map(|(d, _)| d.clone().unwrap_or_default().to_vec()));
        r
    }
    fn call_inner(&self, i: usize, kind: Kind, from: &str, to: &str, msg: &[u8], funds: Vec<Coin>) -> Result<(Option<Binary>, Vec<(String, Event)>), String> {
        if self.depth.get() >= MAX_DEPTH {
            return Err("call depth".into());
        }
        if kind == Kind::Exec {
            let n = self.calls.get() + 1;
            self.calls.set(n);
            if self.fail_at.get() == Some(n) {
                return Err("injected fault".into());
            }
        }
        let code = self.st.borrow().contracts.get(to).map(|c| c.code.clone()).ok_or("no such contract")?;
        // what a contract attaches is added up by wasmd; a transaction has to state it properly
        let funds = if self.depth.get() > 0 { Self::add_up(funds)? } else { funds };
        let funds = Self::clean_funds(funds)?;
        self.trace.borrow_mut()[i].funds = funds.clone();
        if !funds.is_empty() {
            self.transfer(from, to, &funds)?;
        }
        self.depth.set(self.depth.get() + 1);
        self.stack.borrow_mut().push(i);
        let r = (|| {
            let resp = match code {
                Code::Real(c) => {
                    let mut kv = Kv { chain: self, addr: to.into(), ro: false };
                    let api = self.api();
                    let q = Q { chain: self, me: to.into() };
                    let info = MessageInfo { sender: Addr::unchecked(from), funds: funds.clone() };
                    guarded(|| {
                        let deps = DepsMut { storage: &mut kv, api: &api, querier: QuerierWrapper::new(&q) };
                        match kind {
                            Kind::Inst => (c.inst)(deps, self.env(to), info, msg),
                            Kind::Migrate => match c.migrate {
                                Some(m) => m(deps, self.env(to), msg),
                                None => Err("no migrate".into()),
                            },
                            _ => (c.exec)(deps, self.env(to), info, msg),
                        }
                    })?
                }
                Code::Stub(s) => {
                    let ctx = StubCtx { chain: self, me: to.into(), sender: from.into(), funds: funds.clone() };
                    let v: Value = serde_json::from_slice(msg).unwrap_or(Value::Null);
                    guarded(|| s.execute(&ctx, &v))?
                }
            };
            self.run_response(i, to, resp)
        })();
        self.stack.borrow_mut().pop();
        self.depth.set(self.depth.get() - 1);
        r
    }
    fn run_response(&self, i: usize, me: &str, resp: Response) -> Result<(Option<Binary>, Vec<(String, Event)>), String> {
        let mut events = vec![];
        {
            let mut own = resp.events.clone();
            if !resp.attributes.is_empty() {
                let mut e = Event::new("wasm");
                e.attributes = resp.attributes.clone();
                own.push(e);
            }
            for e in &own {
                if e.attributes.iter().any(|a| a.key.trim().is_empty() || a.key.starts_with('_')) {
                    return Err("bad event attribute".into());
                }
                if e.ty.trim().len() < 2 {
                    return Err("bad event type".into());
                }
            }
            self.trace.borrow_mut()[i].events.extend(own.iter().cloned());
            events.extend(own.into_iter().map(|e| (me.to_string(), e)));
        }
        let mut data = resp.data.clone();
        for sub in resp.messages {
            let (d, ev) = self.sub_msg(i, me, sub)?;
            events.extend(ev);
            if d.is_some() {
                data = d;
            }
        }
        Ok((data, events))
    }
    fn sub_msg(&self, i: usize, me: &str, sub: SubMsg) -> Result<(Option<Binary>, Vec<(String, Event)>), String> {
        let s = self.snap();
        let r = self.cosmos(me, sub.msg);
        match r {
            Ok((raw, ev)) => {
                if matches!(sub.reply_on, ReplyOn::Success | ReplyOn::Always) {
                    let mut out = ev;
                    let rep = Reply {
                        id: sub.id,
                        result: SubMsgResult::Ok(SubMsgResponse {
                            events: out.iter().map(|(_, e)| e.clone()).collect(),
                            data: raw,
                        }),
                    };
                    let (d, ev2) = self.reply(i, me, rep)?;
                    out.extend(ev2);
                    Ok((d, out))
                } else {
                    Ok((None, ev))
                }
            }
            Err(e) => {
                self.rollback(s);
                if matches!(sub.reply_on, ReplyOn::Error | ReplyOn::Always) {
                    let rep = Reply { id: sub.id, result: SubMsgResult::Err(e) };
                    self.reply(i, me, rep)
                } else {
                    Err(e)
                }
            }
        }
    }
    fn reply(&self, _i: usize, me: &str, rep: Reply) -> Result<(Option<Binary>, Vec<(String, Event)>), String> {
        let i = self.push_ev(Kind::Reply, me, me, rep.id.to_string().into_bytes(), vec![]);
        self.stack.borrow_mut().push(i);
        let code = self.st.borrow().contracts.get(me).map(|c| c.code.clone()).ok_or("no contract")?;
        let r = (|| {
            let resp = match code {
                Code::Real(c) => {
                    let f = c.reply.ok_or("no reply entry point")?;
                    let mut kv = Kv { chain: self, addr: me.into(), ro: false };
                    let api = self.api();
                    let q = Q { chain: self, me: me.into() };
                    guarded(|| {
                        f(DepsMut { storage: &mut kv, api: &api, querier: QuerierWrapper::new(&q) }, self.env(me), rep)
                    })?
                }
                Code::Stub(s) => {
                    let ctx = StubCtx { chain: self, me: me.into(), sender: me.into(), funds: vec![] };
                    guarded(|| s.reply(&ctx, rep))?
                }
            };
            self.run_response(i, me, resp)
        })();
        self.stack.borrow_mut().pop();
        self.close_ev(i, r.as_ref().map(|(d, _)| d.clone().unwrap_or_default().to_vec()));
        r
    }
    fn cosmos(&self, from: &str, msg: CosmosMsg) -> Result<(Option<Binary>, Vec<(String, Event)>), String> {
        self.msgs.set(self.msgs.get() + 1);
        if self.fail_msg.get() == Some(self.msgs.get()) {
            return Err("injected fault".into());
        }
        match msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let (d, e) = self.call(Kind::Exec, from, &contract_addr, &msg, funds)?;
                Ok((d.map(|d| pb_bytes(1, &d).into()), e))
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { code_id, msg, funds, .. }) => {
                let code = self.codes.borrow().get(&code_id).cloned().ok_or("no such code")?;
                let n = self.next_addr.get();
                self.next_addr.set(n + 1);
                let addr = b32(&self.hrp, &sha(format!("contract/{n}").as_bytes()));
                self.create(&addr, code);
                let (d, e) = self.call(Kind::Inst, from, &addr, &msg, funds)?;
                let mut out = pb_bytes(1, addr.as_bytes());
                if let Some(d) = d {
                    out.extend(pb_bytes(2, &d));
                }
                Ok((Some(out.into()), e))
            }
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let i = self.push_ev(Kind::BankSend, from, &to_address, vec![], amount.clone());
                let r = (|| {
                    // sdk MsgSend.ValidateBasic: valid, non-empty, all-positive, sorted unique
                    self.api().addr_validate(&to_address).map_err(|e| e.to_string())?;
                    if amount.is_empty() || amount.iter().any(|c| c.amount.is_zero()) {
                        return Err("invalid coins".to_string());
                    }
                    let c = Self::clean_funds(amount)?;
                    self.transfer(from, &to_address, &c)
                })();
                self.close_ev(i, r.as_ref().map(|_| vec![]));
                r?;
                Ok((None, vec![]))
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                let i = self.push_ev(Kind::BankBurn, from, "", vec![], amount.clone());
                let r = (|| {
                    let c = Self::clean_funds(amount)?;
                    for c in c {
                        let b = self.balance(from, &c.denom);
                        let a = c.amount.u128();
                        if b < a {
                            return Err("insufficient funds".to_string());
                        }
                        self.bank_set(from, &c.denom, b - a);
                        self.supply_set(&c.denom, self.supply(&c.denom) - a);
                    }
                    Ok(())
                })();
                self.close_ev(i, r.as_ref().map(|_| vec![]));
                r?;
                Ok((None, vec![]))
            }
            CosmosMsg::Stargate { type_url, value } => self.tokenfactory(from, &type_url, &value),
            other => Err(format!("unsupported message {other:?}")),
        }
    }
    fn create(&self, addr: &str, code: Code) {
        self.st.borrow_mut().contracts.insert(addr.into(), Inst { code, kv: Default::default() });
        self.journal.borrow_mut().push(Undo::New(addr.into()));
    }
    fn tokenfactory(&self, from: &str, url: &str, v: &[u8]) -> Result<(Option<Binary>, Vec<(String, Event)>), String> {
        let f = pb_parse(v)?;
        let s = |n: u64| -> String {
            f.iter().find(|(k, _)| *k == n).map(|(_, b)| String::from_utf8_lossy(b).into_owned()).unwrap_or_default()
        };
        let coin = |n: u64| -> Result<Coin, String> {
            let b = f.iter().find(|(k, _)| *k == n).ok_or("no coin")?;
            let cf = pb_parse(&b.1)?;
            let g = |n: u64| cf.iter().find(|(k, _)| *k == n).map(|(_, b)| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
            let amt: u128 = g(2).parse().map_err(|_| "amount out of range".to_string())?;
            Ok(Coin::new(amt, g(1)))
        };
        let sender = s(1);
        let name = url.rsplit('.').next().unwrap_or("");
        let (kind, to, funds) = match name {
            "MsgCreateDenom" => (Kind::TfCreate, s(2), vec![]),
            "MsgMint" => (Kind::TfMint, { let t = s(3); if t.is_empty() { sender.clone() } else { t } }, vec![coin(2)?]),
            "MsgBurn" => (Kind::TfBurn, { let t = s(3); if t.is_empty() { sender.clone() } else { t } }, vec![coin(2)?]),
            "MsgSetDenomMetadata" => (Kind::TfMeta, String::new(), vec![]),
            _ => return Err(format!("unknown stargate {url}")),
        };
        let i = self.push_ev(kind, from, &to, v.to_vec(), funds.clone());
        let r: Result<Option<Vec<u8>>, String> = (|| {
            if !url.starts_with("/osmosis.tokenfactory.v1beta1.") {
                return Err("unknown module".into());
            }
            if sender != from {
                return Err("sender is not the signer".into());
            }
            let admin = |d: &str| self.st.borrow().factory.get(d).map(|c| c == from).unwrap_or(false);
            match kind {
                Kind::TfCreate => {
                    let d = format!("factory/{from}/{to}");
                    if self.st.borrow().factory.contains_key(&d) {
                        return Err("denom exists".into());
                    }
                    self.st.borrow_mut().factory.insert(d.clone(), from.into());
                    self.journal.borrow_mut().push(Undo::Factory(d.clone()));
                    Ok(Some(pb_bytes(1, d.as_bytes())))
                }
                Kind::TfMint => {
                    let c = &funds[0];
                    if !admin(&c.denom) {
                        return Err("not denom admin".into());
                    }
                    if c.amount.is_zero() {
                        return Err("invalid coins".into());
                    }
                    let a = c.amount.u128();
                    let ns = self.supply(&c.denom).checked_add(a).ok_or("supply overflow")?;
                    self.bank_set(&to, &c.denom, self.balance(&to, &c.denom) + a);
                    self.supply_set(&c.denom, ns);
                    Ok(None)
                }
                Kind::TfBurn => {
                    let c = &funds[0];
                    if !admin(&c.denom) {
                        return Err("not denom admin".into());
                    }
                    if c.amount.is_zero() {
                        return Err("invalid coins".into());
                    }
                    let a = c.amount.u128();
                    let b = self.balance(&to, &c.denom);
                    if b < a {
                        return Err("insufficient funds to burn".into());
                    }
                    self.bank_set(&to, &c.denom, b - a);
                    self.supply_set(&c.denom, self.supply(&c.denom) - a);
                    Ok(None)
                }
                _ => {
                    // metadata: only the admin of the base denom
                    let b = f.iter().find(|(k, _)| *k == 2).ok_or("no metadata")?;
                    let mf = pb_parse(&b.1)?;
                    let base = mf.iter().find(|(k, _)| *k == 3).map(|(_, b)| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                    if !admin(&base) {
                        return Err("not denom admin".into());
                    }
                    Ok(None)
                }
            }
        })();
        self.close_ev(i, r.as_ref().map(|o| o.clone().unwrap_or_default()));
        Ok((r?.map(Binary), vec![]))
    }

    // ---- transactions
    /// several transactions in one block, one block after the other, or a long time later
    fn next_block(&self) {
        if self.held.get() {
            self.txidx.set(Some(self.txidx.get().unwrap_or(0) + 1));
            return;
        }
        let p = self.pace.get();
        let mut x = (p ^ self.txno.get().wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x = (x ^ (x >> 31)).wrapping_mul(0x94d0_49bb_1331_11eb);
        x ^= x >> 29;
        let (blocks, ns) = match (p, x % 20) {
            (0, _) => (1, 6_000_000_000),
            (_, 0..=6) => (0, 0),
            (_, 7..=15) => (1, 1_000_000_000 + (x >> 32)),
            (_, 16..=18) => (1 + (x >> 32) % 1000, 6_000_000_000 + (x >> 20)),
            _ => (1 + (x >> 40), 1_000_000_000 * (1 + (x >> 38))),
        };
        self.height.set(self.height.get() + blocks);
        self.clock.set((self.clock.get() + ns).min(1 << 62));
        self.txidx.set(match (p, blocks, x % 23) {
            (0, _, _) => Some(0),
            (_, _, 0) => None,
            (_, 0, _) => Some(self.txidx.get().unwrap_or(0) + 1),
            _ => Some((x >> 50) as u32 % 4),
        });
    }
    fn tx<T>(&self, f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
        self.txno.set(self.txno.get() + 1);
        self.next_block();
        self.calls.set(0);
        self.msgs.set(0);
        self.asked.set(0);
        self.journal.borrow_mut().clear();
        let s = self.snap();
        let r = f();
        if r.is_err() {
            self.rollback(s);
        }
        self.journal.borrow_mut().clear();
        r
    }
    pub fn exec(&self, sender: &str, to: &str, msg: &Value, funds: &[Coin]) -> TxRes {
        self.exec_raw(sender, to, &serde_json::to_vec(msg).unwrap(), funds)
    }
    pub fn exec_raw(&self, sender: &str, to: &str, msg: &[u8], funds: &[Coin]) -> TxRes {
        let start = self.trace.borrow().len();
        let r = self.tx(|| self.call(Kind::Exec, sender, to, msg, funds.to_vec()));
        self.note(|| serde_json::json!({"exec":to,"by":sender,"msg":serde_json::from_slice::<Value>(msg).unwrap_or_default(),"funds":funds,"ok":r.is_ok()}));
        let (data, events) = r?;
        Ok(TxOk { data, start, end: self.trace.borrow().len(), events })
    }
    fn note(&self, f: impl FnOnce() -> Value) {
        if let Some(t) = self.tape.borrow_mut().as_mut() {
            t.push(f());
        }
    }
    /// everything stored on the chain, contracts by the names of their codes
    pub fn save(&self) -> Value {
        let st = self.st.borrow();
        let name = |c: &Code| match c {
            Code::Real(r) => r.name,
            Code::Stub(_) => "stub",
        };
        let pairs = |m: &BTreeMap<Vec<u8>, Vec<u8>>| m.iter().map(|(k, v)| serde_json::json!([hex::encode(k), hex::encode(v)])).collect::<Vec<_>>();
        serde_json::json!({
            "hrp": self.hrp, "height": self.height.get(), "clock": self.clock.get(), "next": self.next_addr.get(),
            "contracts": st.contracts.iter().map(|(a, i)| serde_json::json!([a, name(&i.code), pairs(&i.kv)])).collect::<Vec<_>>(),
            "bank": st.bank.iter().filter(|x| *x.1 > 0).map(|((a, d), v)| serde_json::json!([a, d, v.to_string()])).collect::<Vec<_>>(),
            "supply": st.supply.iter().map(|(d, v)| serde_json::json!([d, v.to_string()])).collect::<Vec<_>>(),
            "factory": st.factory,
        })
    }
    pub fn load(v: &Value, code: impl Fn(&str) -> Option<Code>) -> Option<Chain> {
        let ch = Chain::new(v["hrp"].as_str()?);
        ch.height.set(v["height"].as_u64()?);
        ch.clock.set(v["clock"].as_u64()?);
        ch.next_addr.set(v["next"].as_u64()?);
        {
            let mut st = ch.st.borrow_mut();
            for c in v["contracts"].as_array()? {
                let mut kv = BTreeMap::new();
                for p in c[2].as_array()? {
                    kv.insert(hex::decode(p[0].as_str()?).ok()?, hex::decode(p[1].as_str()?).ok()?);
                }
                st.contracts.insert(c[0].as_str()?.into(), Inst { code: code(c[1].as_str()?)?, kv });
            }
            for b in v["bank"].as_array()? {
                st.bank.insert((b[0].as_str()?.into(), b[1].as_str()?.into()), b[2].as_str()?.parse().ok()?);
            }
            for b in v["supply"].as_array()? {
                st.supply.insert(b[0].as_str()?.into(), b[1].as_str()?.parse().ok()?);
            }
            for (d, a) in v["factory"].as_object()? {
                st.factory.insert(d.clone(), a.as_str()?.into());
            }
        }
        Some(ch)
    }
    pub fn last_calls(&self) -> u64 {
        self.calls.get()
    }
    /// messages emitted and questions asked by contracts in the last transaction
    pub fn last_steps(&self) -> (u64, u64) {
        (self.msgs.get(), self.asked.get())
    }
    /// the stored state of every contract
    pub fn dump_all(&self) -> BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>> {
        self.st.borrow().contracts.iter().map(|(a, i)| (a.clone(), i.kv.clone())).collect()
    }
    pub fn migrate(&self, to: &str, msg: &Value) -> TxRes {
        let start = self.trace.borrow().len();
        let (data, events) = self.tx(|| self.call(Kind::Migrate, "admin", to, &serde_json::to_vec(msg).unwrap(), vec![]))?;
        Ok(TxOk { data, start, end: self.trace.borrow().len(), events })
    }
    pub fn fresh_addr(&self) -> String {
        let n = self.next_addr.get();
        self.next_addr.set(n + 1);
        b32(&self.hrp, &sha(format!("contract/{n}").as_bytes()))
    }
    pub fn deploy_at(&self, addr: &str, sender: &str, code: Code, msg: &Value) -> Result<TxOk, String> {
        let start = self.trace.borrow().len();
        let (data, events) = self.tx(|| {
            if self.is_contract(addr) {
                return Err("exists".into());
            }
            self.create(addr, code);
            self.call(Kind::Inst, sender, addr, &serde_json::to_vec(msg).unwrap(), vec![])
        })?;
        Ok(TxOk { data, start, end: self.trace.borrow().len(), events })
    }
    pub fn deploy(&self, sender: &str, code: &RealCode, msg: &Value) -> Result<String, String> {
        let a = self.fresh_addr();
        self.deploy_at(&a, sender, Code::Real(Rc::new(code.clone())), msg)?;
        Ok(a)
    }
    pub fn put_stub(&self, s: Rc<dyn Stub>) -> String {
        let a = self.fresh_addr();
        self.put_stub_at(&a, s);
        a
    }
    pub fn put_stub_at(&self, a: &str, s: Rc<dyn Stub>) {
        self.create(a, Code::Stub(s));
        self.journal.borrow_mut().clear();
    }
    pub fn evs(&self, from: usize) -> Vec<Ev> {
        self.trace.borrow()[from..].to_vec()
    }
    pub fn mark(&self) -> usize {
        self.trace.borrow().len()
    }
}

// ---- minimal protobuf
pub fn pb_bytes(field: u64, b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    pb_varint(&mut o, field << 3 | 2);
    pb_varint(&mut o, b.len() as u64);
    o.extend_from_slice(b);
    o
}
fn pb_varint(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
/// fields in order of appearance; numbers as eight bytes
pub fn pb_parse(mut b: &[u8]) -> Result<Vec<(u64, Vec<u8>)>, String> {
    fn rd(b: &mut &[u8]) -> Result<u64, String> {
        let (mut v, mut sh) = (0u64, 0);
        loop {
            let (x, rest) = b.split_first().ok_or("pb eof")?;
            *b = rest;
            v |= ((x & 0x7f) as u64) << sh;
            if x & 0x80 == 0 {
                return Ok(v);
            }
            sh += 7;
            if sh > 63 {
                return Err("pb varint".into());
            }
        }
    }
    let mut out = vec![];
    while !b.is_empty() {
        let k = rd(&mut b)?;
        match k & 7 {
            0 => {
                let v = rd(&mut b)?;
                out.push((k >> 3, v.to_be_bytes().to_vec()));
            }
            2 => {
                let l = rd(&mut b)? as usize;
                if l > b.len() {
                    return Err("pb len".into());
                }
                out.push((k >> 3, b[..l].to_vec()));
                b = &b[l..];
            }
            _ => return Err("pb wire type".into()),
        }
    }
    Ok(out)
}
