//! Adversarial and configurable counterpart contracts.
use crate::sim::{Chain, Stub, StubCtx};
use cosmwasm_std::{Binary, Coin, CosmosMsg, Reply, ReplyOn, Response, SubMsg, WasmMsg};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn hexs(b: impl AsRef<[u8]>) -> String {
    hex::encode(b)
}
pub fn unhex(v: &Value) -> Option<Vec<u8>> {
    hex::decode(v.as_str()?).ok()
}
pub fn coins_json(c: &[Coin]) -> Value {
    json!(c.iter().map(|c| json!({"denom":c.denom,"amount":c.amount.to_string()})).collect::<Vec<_>>())
}
pub fn wexec(to: &str, msg: &Value, funds: Vec<Coin>) -> CosmosMsg {
    CosmosMsg::Wasm(WasmMsg::Execute {
        contract_addr: to.into(),
        msg: Binary(serde_json::to_vec(msg).unwrap()),
        funds,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Good,
    Err,
    Panic,
    Garbage,
}

/// post-dispatch hook with scripted quotes, failures and follow-up messages
pub struct HookStub {
    pub quote: RefCell<Vec<Coin>>,
    pub quote_mode: RefCell<Mode>,
    pub exec_mode: RefCell<Mode>,
    pub then: RefCell<Vec<CosmosMsg>>,
    /// take the follow-ups once
    pub once: Cell<bool>,
    /// reject payment below the quote
    pub strict: Cell<bool>,
    /// the price depends on the metadata and the message
    pub keyed: Cell<bool>,
}

impl HookStub {
    /// what this hook charges for a message
    pub fn price(&self, md: &[u8], m: &[u8]) -> Vec<Coin> {
        let mut q = self.quote.borrow().clone();
        if self.keyed.get() {
            let h = crate::model::keccak(&[&(md.len() as u64).to_be_bytes(), md, m]);
            for (i, c) in q.iter_mut().enumerate() {
                c.amount += cosmwasm_std::Uint128::from(1 + h[i % 32] as u128);
            }
        }
        q
    }
    pub fn new() -> Rc<Self> {
        Rc::new(HookStub {
            quote: Default::default(),
            quote_mode: RefCell::new(Mode::Good),
            exec_mode: RefCell::new(Mode::Good),
            then: Default::default(),
            once: Cell::new(true),
            strict: Cell::new(false),
            keyed: Cell::new(false),
        })
    }
}

impl Stub for HookStub {
    fn execute(&self, ctx: &StubCtx, msg: &Value) -> Result<Response, String> {
        if msg.get("post_dispatch").is_none() {
            return Err("unknown".into());
        }
        match *self.exec_mode.borrow() {
            Mode::Good => {}
            Mode::Panic => panic!("hook panic"),
            _ => return Err("hook error".into()),
        }
        if self.strict.get() {
            let x = &msg["post_dispatch"];
            let price = self.price(&unhex(&x["metadata"]).unwrap_or_default(), &unhex(&x["message"]).unwrap_or_default());
            for c in &price {
                let got = ctx.funds.iter().find(|f| f.denom == c.denom).map(|f| f.amount.u128()).unwrap_or_default();
                if got < price.iter().filter(|x| x.denom == c.denom).map(|x| x.amount.u128()).sum() {
                    return Err("hook underpaid".into());
                }
            }
        }
        let then = if self.once.get() { std::mem::take(&mut *self.then.borrow_mut()) } else { self.then.borrow().clone() };
        Ok(Response::new().add_messages(then))
    }
    fn query(&self, _ctx: &StubCtx, msg: &Value) -> Result<Value, String> {
        if let Some(x) = msg.pointer("/hook/quote_dispatch") {
            return match *self.quote_mode.borrow() {
                Mode::Good => Ok(json!({"fees": coins_json(&self.price(&unhex(&x["metadata"]).unwrap_or_default(), &unhex(&x["message"]).unwrap_or_default()))})),
                Mode::Panic => panic!("quote panic"),
                Mode::Garbage => Ok(json!({"nope": 1})),
                Mode::Err => Err("quote error".into()),
            };
        }
        if msg.pointer("/hook/mailbox").is_some() {
            return Ok(json!({"mailbox":"unrestricted"}));
        }
        Err("unknown query".into())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    True,
    False,
    Err,
    Panic,
    Garbage,
    /// true exactly for this (metadata, message)
    Exactly(Vec<u8>, Vec<u8>),
    /// true iff the message bytes are in the shared set
    Among(Rc<RefCell<std::collections::BTreeSet<Vec<u8>>>>),
}

pub struct IsmStub {
    pub v: RefCell<Verdict>,
    pub info: RefCell<Value>,
    /// requirements are known for this message only
    pub info_for: RefCell<Option<Vec<u8>>>,
    pub typ: RefCell<Value>,
}

impl IsmStub {
    pub fn new(v: Verdict) -> Rc<Self> {
        Rc::new(IsmStub {
            v: RefCell::new(v),
            info: RefCell::new(json!({"threshold":1,"validators":[]})),
            info_for: Default::default(),
            typ: RefCell::new(json!({"type":"null"})),
        })
    }
}

impl Stub for IsmStub {
    fn execute(&self, _: &StubCtx, _: &Value) -> Result<Response, String> {
        Err("ism has no execute".into())
    }
    fn query(&self, _: &StubCtx, msg: &Value) -> Result<Value, String> {
        if let Some(v) = msg.pointer("/ism/verify") {
            let ok = match &*self.v.borrow() {
                Verdict::True => true,
                Verdict::False => false,
                Verdict::Err => return Err("ism error".into()),
                Verdict::Panic => panic!("ism panic"),
                Verdict::Garbage => return Ok(json!({"yes": true})),
                Verdict::Exactly(md, m) => unhex(&v["metadata"]).as_ref() == Some(md) && unhex(&v["message"]).as_ref() == Some(m),
                Verdict::Among(s) => unhex(&v["message"]).map(|m| s.borrow().contains(&m)).unwrap_or(false),
            };
            return Ok(json!({"verified": ok}));
        }
        if let Some(v) = msg.pointer("/ism/verify_info") {
            if matches!(&*self.info_for.borrow(), Some(m) if unhex(&v["message"]).as_ref() != Some(m)) {
                return Err("nothing known about that message".into());
            }
            return Ok(self.info.borrow().clone());
        }
        if msg.pointer("/ism/module_type").is_some() {
            return Ok(self.typ.borrow().clone());
        }
        Err("unknown query".into())
    }
}

/// message recipient with scripted security module, failures and follow-ups
pub struct RecipientStub {
    pub ism: RefCell<Result<Option<String>, Mode>>,
    pub mode: RefCell<Mode>,
    pub then: RefCell<Vec<SubMsg>>,
    pub once: Cell<bool>,
    /// query to run against a contract while handling, result recorded
    pub probe: RefCell<Option<(String, Value)>>,
    pub probed: RefCell<Vec<Result<Value, String>>>,
    /// a recipient may be a security module as well
    pub judge: RefCell<Option<Rc<IsmStub>>>,
}

impl RecipientStub {
    pub fn new() -> Rc<Self> {
        Rc::new(RecipientStub {
            ism: RefCell::new(Ok(None)),
            mode: RefCell::new(Mode::Good),
            then: Default::default(),
            once: Cell::new(true),
            probe: Default::default(),
            probed: Default::default(),
            judge: Default::default(),
        })
    }
}

impl Stub for RecipientStub {
    fn execute(&self, ctx: &StubCtx, msg: &Value) -> Result<Response, String> {
        if let Some(m) = msg.get("multi") {
            return multi(m);
        }
        if msg.get("handle").is_none() {
            return Err("unknown".into());
        }
        if let Some((to, q)) = self.probe.borrow().clone() {
            let r = ctx.chain.query(&to, q);
            self.probed.borrow_mut().push(r);
        }
        match *self.mode.borrow() {
            Mode::Good => {}
            Mode::Panic => panic!("recipient panic"),
            _ => return Err("recipient error".into()),
        }
        let then = if self.once.get() { std::mem::take(&mut *self.then.borrow_mut()) } else { self.then.borrow().clone() };
        Ok(Response::new().add_submessages(then))
    }
    fn query(&self, ctx: &StubCtx, msg: &Value) -> Result<Value, String> {
        if let (Some(j), true) = (&*self.judge.borrow(), msg.get("ism").is_some()) {
            return j.query(ctx, msg);
        }
        if msg.get("ism_specifier").is_some() {
            return match &*self.ism.borrow() {
                Ok(i) => Ok(json!({"ism": i})),
                Err(Mode::Panic) => panic!("specifier panic"),
                Err(Mode::Garbage) => Ok(json!("x")),
                Err(_) => Err("no specifier".into()),
            };
        }
        Err("unknown query".into())
    }
}

/// executes a list of calls in one transaction: {"multi":[{"to","msg","funds","catch"}]}
pub struct BatchStub;

fn multi(m: &Value) -> Result<Response, String> {
    let mut subs = vec![];
    for (i, c) in m.as_array().ok_or("bad multi")?.iter().enumerate() {
        let funds: Vec<Coin> = serde_json::from_value(c["funds"].clone()).unwrap_or_default();
        let msg = wexec(c["to"].as_str().unwrap_or(""), &c["msg"], funds);
        subs.push(SubMsg {
            id: i as u64,
            msg,
            gas_limit: None,
            reply_on: if c["catch"].as_bool().unwrap_or(false) { ReplyOn::Always } else { ReplyOn::Never },
        });
    }
    Ok(Response::new().add_submessages(subs))
}

impl Stub for BatchStub {
    fn execute(&self, _: &StubCtx, msg: &Value) -> Result<Response, String> {
        multi(msg.get("multi").ok_or("unknown")?)
    }
    fn query(&self, _: &StubCtx, _: &Value) -> Result<Value, String> {
        Err("no".into())
    }
    fn reply(&self, _: &StubCtx, _: Reply) -> Result<Response, String> {
        Ok(Response::new())
    }
}

/// answers a fixed query table; accepts nothing
pub struct TableStub(pub RefCell<Box<dyn Fn(&Value) -> Result<Value, String>>>);

impl TableStub {
    pub fn new(f: impl Fn(&Value) -> Result<Value, String> + 'static) -> Rc<Self> {
        Rc::new(TableStub(RefCell::new(Box::new(f))))
    }
}

impl Stub for TableStub {
    fn execute(&self, _: &StubCtx, _: &Value) -> Result<Response, String> {
        Ok(Response::new())
    }
    fn query(&self, _: &StubCtx, m: &Value) -> Result<Value, String> {
        (self.0.borrow())(m)
    }
}

// ---- thin client helpers over the JSON interface
pub struct Mailbox<'a> {
    pub c: &'a Chain,
    pub a: String,
}

impl Mailbox<'_> {
    pub fn q(&self, m: Value) -> Result<Value, String> {
        self.c.query(&self.a, json!({ "mailbox": m }))
    }
    pub fn delivered(&self, id: &[u8]) -> Result<bool, String> {
        let v = self.q(json!({"message_delivered":{"id":hexs(id)}}))?;
        v["delivered"].as_bool().ok_or("bad response".into())
    }
    pub fn nonce(&self) -> Result<u64, String> {
        self.q(json!({"nonce":{}}))?["nonce"].as_u64().ok_or("bad response".into())
    }
    pub fn latest(&self) -> Result<Vec<u8>, String> {
        unhex(&self.q(json!({"latest_dispatch_id":{}}))?["message_id"]).ok_or("bad response".into())
    }
}

pub fn process_msg(metadata: &[u8], message: &[u8]) -> Value {
    json!({"process":{"metadata":hexs(metadata),"message":hexs(message)}})
}

pub fn dispatch_msg(dest: u32, recipient: &[u8], body: &[u8], hook: Option<&str>, metadata: Option<&[u8]>) -> Value {
    json!({"dispatch":{"dest_domain":dest,"recipient_addr":hexs(recipient),"msg_body":hexs(body),
        "hook":hook,"metadata":metadata.map(hexs)}})
}
