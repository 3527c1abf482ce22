use std::{collections::BTreeMap, rc::Rc};

use sha2::{Digest, Sha256, Sha512, Sha512_256};

use crate::{
    parse::{parse, Expr},
    value::{Ty, V},
};

pub struct Func {
    public: bool,
    read_only: bool,
    args: Vec<(String, Ty)>,
    body: Vec<Expr>,
}

/// A deployed contract's code.
#[derive(Clone, Default)]
struct Code {
    consts: BTreeMap<String, V>,
    funcs: BTreeMap<String, Rc<Func>>,
    vars: BTreeMap<String, Ty>,
    maps: BTreeMap<String, (Ty, Ty)>,
    fts: BTreeMap<String, Option<u128>>,
}

/// Everything calls can change.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct State {
    vars: BTreeMap<(String, String), V>,
    maps: BTreeMap<(String, String), BTreeMap<V, V>>,
    balances: BTreeMap<(String, String), BTreeMap<String, u128>>,
    supply: BTreeMap<(String, String), u128>,
    events: u64,
}

#[derive(Clone, Debug)]
enum Stop {
    Abort(String),
    Return(V),
}
type R = Result<V, Stop>;
fn abort<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Abort(s.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum CallResult {
    /// The value of a public call; an error response changed nothing.
    Value(V),
    /// A runtime error or a call the chain refuses.
    Abort(String),
}
impl CallResult {
    pub fn ok(&self) -> bool {
        matches!(self, CallResult::Value(V::Resp(true, _)))
    }
    pub fn text(&self) -> String {
        match self {
            CallResult::Value(v) => v.to_string(),
            CallResult::Abort(e) => format!("abort: {e}"),
        }
    }
}

#[derive(Clone, Default)]
pub struct Vm {
    code: BTreeMap<String, Rc<Code>>,
    pub state: State,
    /// Header hash by burn-chain height, as `get-burn-block-info?` shows it.
    pub burn_headers: BTreeMap<u128, Vec<u8>>,
    pub burn_height: u128,
    pub stacks_height: u128,
}

struct Ctx<'a> {
    contract: &'a str,
    code: Rc<Code>,
    sender: String,
    caller: String,
    depth: u32,
}

type Env = Vec<(String, V)>;

impl Vm {
    pub fn deploy(&mut self, id: &str, src: &str) -> Result<(), String> {
        let deployer = id.split('.').next().unwrap_or("").to_string();
        let exprs = parse(src)?;
        let mut code = Code::default();
        // Definitions may be used before they are written down: those that need
        // no evaluation come first, the others once what they use is there.
        let rank = |e: &Expr| match e {
            Expr::List(l) => match l.first() {
                Some(Expr::Sym(h)) => match h.as_str() {
                    "define-public" | "define-private" | "define-read-only" | "define-map" => 0,
                    "define-constant" | "define-data-var" | "define-fungible-token" => 1,
                    _ => 2,
                },
                _ => 2,
            },
            _ => 2,
        };
        let mut todo: Vec<&Expr> = exprs.iter().collect();
        todo.sort_by_key(|e| rank(e));
        let mut todo: std::collections::VecDeque<&Expr> = todo.into();
        let mut stuck = 0;
        while let Some(e) = todo.pop_front() {
            match self.define(id, &deployer, &mut code, e) {
                Ok(()) => stuck = 0,
                Err(_) if rank(e) == 1 && stuck < todo.iter().filter(|e| rank(e) == 1).count() => {
                    stuck += 1;
                    let at = todo.iter().position(|e| rank(e) == 2).unwrap_or(todo.len());
                    todo.insert(at, e);
                }
                Err(e) => return Err(e),
            }
        }
        self.code.insert(id.into(), Rc::new(code));
        Ok(())
    }

    fn define(&mut self, id: &str, deployer: &str, code: &mut Code, e: &Expr) -> Result<(), String> {
        {
            let Expr::List(l) = e else { return Err(format!("top level {e:?}")) };
            let Some(Expr::Sym(h)) = l.first() else { return Err("top level".into()) };
            let name = |e: &Expr| match e {
                Expr::Sym(s) => Ok(s.clone()),
                e => Err(format!("not a name: {e:?}")),
            };
            let run = |vm: &mut Vm, code: &Code, e: &Expr| -> Result<V, String> {
                let ctx = Ctx {
                    contract: id,
                    code: Rc::new(code.clone()),
                    sender: deployer.to_string(),
                    caller: deployer.to_string(),
                    depth: 0,
                };
                match vm.eval(e, &mut vec![], &ctx) {
                    Ok(v) | Err(Stop::Return(v)) => Ok(v),
                    Err(Stop::Abort(e)) => Err(e),
                }
            };
            match (h.as_str(), &l[1..]) {
                ("define-constant", [n, v]) => {
                    let v = run(self, code, v)?;
                    code.consts.insert(name(n)?, v);
                }
                ("define-data-var", [n, t, v]) => {
                    let (n, t) = (name(n)?, Ty::parse(t)?);
                    let v = run(self, code, v)?;
                    if !t.admits(&v) {
                        return Err(format!("initial value of {n}"));
                    }
                    code.vars.insert(n.clone(), t);
                    self.state.vars.insert((id.into(), n), v);
                }
                ("define-map", [n, k, v]) => {
                    code.maps.insert(name(n)?, (Ty::parse(k)?, Ty::parse(v)?));
                }
                ("define-fungible-token", [n]) => {
                    code.fts.insert(name(n)?, None);
                }
                ("define-fungible-token", [n, cap]) => {
                    let V::UInt(cap) = run(self, code, cap)? else { return Err("token cap".into()) };
                    code.fts.insert(name(n)?, Some(cap));
                }
                ("define-public" | "define-private" | "define-read-only", [Expr::List(sig), body @ ..]) => {
                    let mut args = vec![];
                    for a in &sig[1..] {
                        let Expr::List(p) = a else { return Err("bad argument".into()) };
                        args.push((name(&p[0])?, Ty::parse(&p[1])?));
                    }
                    code.funcs.insert(
                        name(&sig[0])?,
                        Rc::new(Func {
                            public: h == "define-public",
                            read_only: h == "define-read-only",
                            args,
                            body: body.to_vec(),
                        }),
                    );
                }
                ("impl-trait" | "use-trait" | "define-trait", _) => {}
                _ => {
                    run(self, code, e)?;
                }
            }
        }
        Ok(())
    }

    pub fn has(&self, id: &str) -> bool {
        self.code.contains_key(id)
    }

    /// A transaction's contract call by `sender`.
    pub fn call(&mut self, sender: &str, id: &str, func: &str, args: &[V]) -> CallResult {
        self.call_as(sender, sender, id, func, args)
    }

    /// A call that reaches the contract from `caller` (which may be a contract).
    pub fn call_as(&mut self, sender: &str, caller: &str, id: &str, func: &str, args: &[V]) -> CallResult {
        let Some(code) = self.code.get(id).cloned() else { return CallResult::Abort(format!("no contract {id}")) };
        let Some(f) = code.funcs.get(func).cloned() else { return CallResult::Abort(format!("no function {func}")) };
        if !f.public && !f.read_only {
            return CallResult::Abort(format!("{func} is private"));
        }
        let before = self.state.clone();
        let ctx = Ctx { contract: id, code, sender: sender.into(), caller: caller.into(), depth: 0 };
        match self.apply(&f, args.to_vec(), &ctx) {
            Ok(v) => {
                if matches!(v, V::Resp(false, _)) {
                    self.state = before;
                } else if f.public && !matches!(v, V::Resp(..)) {
                    self.state = before;
                    return CallResult::Abort("public function without a response".into());
                }
                CallResult::Value(v)
            }
            Err(Stop::Abort(e)) => {
                self.state = before;
                CallResult::Abort(e)
            }
            Err(Stop::Return(v)) => CallResult::Value(v),
        }
    }

    /// The functions anybody can call in a transaction, with their arguments' types.
    pub fn publics(&self, id: &str) -> Vec<(String, Vec<Ty>)> {
        let Some(c) = self.code.get(id) else { return vec![] };
        c.funcs
            .iter()
            .filter(|(_, f)| f.public)
            .map(|(n, f)| (n.clone(), f.args.iter().map(|a| a.1.clone()).collect()))
            .collect()
    }

    /// The sum of all balances of all tokens a contract defines.
    pub fn held(&self, id: &str) -> u128 {
        self.state.balances.iter().filter(|(k, _)| k.0 == id).flat_map(|(_, b)| b.values()).sum()
    }

    pub fn read(&mut self, id: &str, func: &str, args: &[V]) -> Option<V> {
        let before = self.state.clone();
        let r = self.call_as(id, id, id, func, args);
        self.state = before;
        match r {
            CallResult::Value(v) => Some(v),
            CallResult::Abort(_) => None,
        }
    }

    pub fn var(&self, id: &str, name: &str) -> Option<&V> {
        self.state.vars.get(&(id.into(), name.into()))
    }
    pub fn balances(&self, id: &str, token: &str) -> BTreeMap<String, u128> {
        self.state.balances.get(&(id.into(), token.into())).cloned().unwrap_or_default()
    }
    pub fn supply(&self, id: &str, token: &str) -> u128 {
        self.state.supply.get(&(id.into(), token.into())).copied().unwrap_or(0)
    }
    /// Gives an account tokens outside any call (the state a run starts from).
    pub fn preset_balance(&mut self, id: &str, token: &str, who: &str, amount: u128) {
        let k = (id.to_string(), token.to_string());
        *self.state.balances.entry(k.clone()).or_default().entry(who.into()).or_default() += amount;
        *self.state.supply.entry(k).or_default() += amount;
    }

    fn apply(&mut self, f: &Rc<Func>, args: Vec<V>, ctx: &Ctx) -> R {
        if ctx.depth > 60 {
            return abort("stack depth");
        }
        if args.len() != f.args.len() {
            return abort("wrong number of arguments");
        }
        let mut env: Env = vec![];
        for ((n, t), v) in f.args.iter().zip(args) {
            if !t.admits(&v) {
                return abort(format!("argument {n} is not of its type"));
            }
            env.push((n.clone(), v));
        }
        match self.block(&f.body, &mut env, ctx) {
            Err(Stop::Return(v)) => Ok(v),
            r => r,
        }
    }

    fn block(&mut self, body: &[Expr], env: &mut Env, ctx: &Ctx) -> R {
        let mut last = V::Bool(true);
        for e in body {
            last = self.eval(e, env, ctx)?;
        }
        Ok(last)
    }

    fn eval(&mut self, e: &Expr, env: &mut Env, ctx: &Ctx) -> R {
        Ok(match e {
            Expr::Int(i) => V::Int(*i),
            Expr::UInt(i) => V::UInt(*i),
            Expr::Buff(b) => V::Buff(b.clone()),
            Expr::Str(s) => V::Str(s.clone()),
            Expr::Utf8(s) => V::Utf8(s.clone()),
            Expr::Principal(p) => V::Principal(p.clone()),
            Expr::Rel(n) => V::Principal(format!("{}.{n}", ctx.contract.split('.').next().unwrap_or(""))),
            Expr::Tuple(t) => {
                let mut m = BTreeMap::new();
                for (k, v) in t {
                    m.insert(k.clone(), self.eval(v, env, ctx)?);
                }
                V::Tuple(m)
            }
            Expr::Sym(s) => return self.symbol(s, env, ctx),
            Expr::List(l) => {
                let Some(Expr::Sym(h)) = l.first() else { return abort("not a call") };
                return self.form(h, &l[1..], env, ctx);
            }
        })
    }

    fn symbol(&mut self, s: &str, env: &Env, ctx: &Ctx) -> R {
        if let Some((_, v)) = env.iter().rev().find(|(n, _)| n == s) {
            return Ok(v.clone());
        }
        Ok(match s {
            "true" => V::Bool(true),
            "false" => V::Bool(false),
            "none" => V::none(),
            "tx-sender" => V::Principal(ctx.sender.clone()),
            "contract-caller" => V::Principal(ctx.caller.clone()),
            "block-height" => V::UInt(self.stacks_height),
            "burn-block-height" => V::UInt(self.burn_height),
            "tx-sponsor?" => V::none(),
            "is-in-mainnet" | "is-in-regtest" => V::Bool(false),
            "chain-id" => V::UInt(0x8000_0000),
            _ => match ctx.code.consts.get(s) {
                Some(v) => v.clone(),
                None => return abort(format!("unknown name {s}")),
            },
        })
    }

    fn form(&mut self, h: &str, a: &[Expr], env: &mut Env, ctx: &Ctx) -> R {
        let name = |e: &Expr| match e {
            Expr::Sym(s) => Ok(s.clone()),
            e => abort(format!("not a name: {e:?}")),
        };
        match (h, a) {
            ("begin", b) => self.block(b, env, ctx),
            ("if", [c, t, f]) => match self.eval(c, env, ctx)? {
                V::Bool(true) => self.eval(t, env, ctx),
                V::Bool(false) => self.eval(f, env, ctx),
                _ => abort("if without a bool"),
            },
            ("let", [Expr::List(bs), body @ ..]) => {
                let n = env.len();
                for b in bs {
                    let Expr::List(p) = b else { return abort("bad let") };
                    let k = name(&p[0])?;
                    match self.eval(&p[1], env, ctx) {
                        Ok(v) => env.push((k, v)),
                        Err(e) => {
                            env.truncate(n);
                            return Err(e);
                        }
                    }
                }
                let r = self.block(body, env, ctx);
                env.truncate(n);
                r
            }
            ("and", b) => {
                for e in b {
                    match self.eval(e, env, ctx)? {
                        V::Bool(true) => {}
                        V::Bool(false) => return Ok(V::Bool(false)),
                        _ => return abort("and without bools"),
                    }
                }
                Ok(V::Bool(true))
            }
            ("or", b) => {
                for e in b {
                    match self.eval(e, env, ctx)? {
                        V::Bool(false) => {}
                        V::Bool(true) => return Ok(V::Bool(true)),
                        _ => return abort("or without bools"),
                    }
                }
                Ok(V::Bool(false))
            }
            ("match", [v, rest @ ..]) => {
                let v = self.eval(v, env, ctx)?;
                let (bind, branch) = match (v, rest) {
                    (V::Opt(Some(v)), [n, s, _]) => (Some((name(n)?, *v)), s),
                    (V::Opt(None), [_, _, o]) => (None, o),
                    (V::Resp(true, v), [n, s, _, _]) => (Some((name(n)?, *v)), s),
                    (V::Resp(false, v), [_, _, n, s]) => (Some((name(n)?, *v)), s),
                    _ => return abort("bad match"),
                };
                let len = env.len();
                env.extend(bind);
                let r = self.eval(branch, env, ctx);
                env.truncate(len);
                r
            }
            ("asserts!", [c, t]) => match self.eval(c, env, ctx)? {
                V::Bool(true) => Ok(V::Bool(true)),
                V::Bool(false) => {
                    let v = self.eval(t, env, ctx)?;
                    Err(Stop::Return(v))
                }
                _ => abort("asserts! without a bool"),
            },
            ("try!", [e]) => match self.eval(e, env, ctx)? {
                V::Opt(Some(v)) | V::Resp(true, v) => Ok(*v),
                v @ (V::Opt(None) | V::Resp(false, _)) => Err(Stop::Return(v)),
                _ => abort("try! of neither optional nor response"),
            },
            ("unwrap!" | "unwrap-err!", [e, t]) => match (h, self.eval(e, env, ctx)?) {
                ("unwrap!", V::Opt(Some(v)) | V::Resp(true, v)) | ("unwrap-err!", V::Resp(false, v)) => Ok(*v),
                (_, V::Opt(None) | V::Resp(..)) => {
                    let v = self.eval(t, env, ctx)?;
                    Err(Stop::Return(v))
                }
                _ => abort("unwrap! of neither optional nor response"),
            },
            ("unwrap-panic" | "unwrap-err-panic", [e]) => match (h, self.eval(e, env, ctx)?) {
                ("unwrap-panic", V::Opt(Some(v)) | V::Resp(true, v)) | ("unwrap-err-panic", V::Resp(false, v)) => Ok(*v),
                (_, v) => abort(format!("UnwrapFailure of {v}")),
            },
            ("default-to", [d, e]) => match self.eval(e, env, ctx)? {
                V::Opt(Some(v)) => Ok(*v),
                V::Opt(None) => self.eval(d, env, ctx),
                _ => abort("default-to of no optional"),
            },
            ("var-get", [n]) => {
                let k = (ctx.contract.to_string(), name(n)?);
                self.state.vars.get(&k).cloned().ok_or(Stop::Abort("no such variable".into()))
            }
            ("var-set", [n, v]) => {
                let n = name(n)?;
                let v = self.eval(v, env, ctx)?;
                match ctx.code.vars.get(&n) {
                    Some(t) if t.admits(&v) => {
                        self.state.vars.insert((ctx.contract.into(), n), v);
                        Ok(V::Bool(true))
                    }
                    _ => abort(format!("var-set {n}")),
                }
            }
            ("map-get?" | "map-set" | "map-insert" | "map-delete", [n, rest @ ..]) => {
                let n = name(n)?;
                let Some((kt, vt)) = ctx.code.maps.get(&n).cloned() else { return abort(format!("no map {n}")) };
                let mut vals = vec![];
                for e in rest {
                    vals.push(self.eval(e, env, ctx)?);
                }
                if vals.is_empty() || !kt.admits(&vals[0]) || vals.get(1).is_some_and(|v| !vt.admits(v)) {
                    return abort(format!("{h} {n}: wrong type"));
                }
                let m = self.state.maps.entry((ctx.contract.into(), n)).or_default();
                match (h, &vals[..]) {
                    ("map-get?", [k]) => Ok(V::Opt(m.get(k).cloned().map(Box::new))),
                    ("map-set", [k, v]) => {
                        m.insert(k.clone(), v.clone());
                        Ok(V::Bool(true))
                    }
                    ("map-insert", [k, v]) => {
                        if m.contains_key(k) {
                            Ok(V::Bool(false))
                        } else {
                            m.insert(k.clone(), v.clone());
                            Ok(V::Bool(true))
                        }
                    }
                    ("map-delete", [k]) => Ok(V::Bool(m.remove(k).is_some())),
                    _ => abort(format!("{h}: arguments")),
                }
            }
            ("ft-mint?" | "ft-burn?" | "ft-transfer?" | "ft-get-balance" | "ft-get-supply", [t, rest @ ..]) => {
                let t = name(t)?;
                let Some(cap) = ctx.code.fts.get(&t).copied() else { return abort(format!("no token {t}")) };
                let mut vals = vec![];
                for e in rest {
                    vals.push(self.eval(e, env, ctx)?);
                }
                let k = (ctx.contract.to_string(), t);
                let bal = |s: &State, p: &str| s.balances.get(&k).and_then(|m| m.get(p)).copied().unwrap_or(0);
                match (h, &vals[..]) {
                    ("ft-get-balance", [V::Principal(p)]) => Ok(V::UInt(bal(&self.state, p))),
                    ("ft-get-supply", []) => Ok(V::UInt(self.state.supply.get(&k).copied().unwrap_or(0))),
                    ("ft-mint?", [V::UInt(n), V::Principal(p)]) => {
                        if *n == 0 {
                            return Ok(V::err(V::UInt(1)));
                        }
                        let s = self.state.supply.get(&k).copied().unwrap_or(0);
                        let Some(s) = s.checked_add(*n) else { return abort("ArithmeticOverflow") };
                        if cap.is_some_and(|c| s > c) {
                            return abort("SupplyOverflow");
                        }
                        let b = bal(&self.state, p) + n;
                        self.state.supply.insert(k.clone(), s);
                        self.state.balances.entry(k).or_default().insert(p.clone(), b);
                        Ok(V::ok(V::Bool(true)))
                    }
                    ("ft-burn?", [V::UInt(n), V::Principal(p)]) => {
                        let b = bal(&self.state, p);
                        if *n == 0 || *n > b {
                            return Ok(V::err(V::UInt(1)));
                        }
                        *self.state.supply.entry(k.clone()).or_default() -= n;
                        self.state.balances.entry(k).or_default().insert(p.clone(), b - n);
                        Ok(V::ok(V::Bool(true)))
                    }
                    ("ft-transfer?", [V::UInt(n), V::Principal(from), V::Principal(to)]) => {
                        if *n == 0 {
                            return Ok(V::err(V::UInt(3)));
                        }
                        if from == to {
                            return Ok(V::err(V::UInt(2)));
                        }
                        let b = bal(&self.state, from);
                        if b < *n {
                            return Ok(V::err(V::UInt(1)));
                        }
                        let c = bal(&self.state, to);
                        let m = self.state.balances.entry(k).or_default();
                        m.insert(from.clone(), b - n);
                        m.insert(to.clone(), c + n);
                        Ok(V::ok(V::Bool(true)))
                    }
                    _ => abort(format!("{h}: arguments")),
                }
            }
            ("tuple", fs) => {
                let mut m = BTreeMap::new();
                for f in fs {
                    let Expr::List(p) = f else { return abort("bad tuple") };
                    let v = self.eval(&p[1], env, ctx)?;
                    m.insert(name(&p[0])?, v);
                }
                Ok(V::Tuple(m))
            }
            ("get", [n, t]) => {
                let n = name(n)?;
                match self.eval(t, env, ctx)? {
                    V::Tuple(m) => m.get(&n).cloned().ok_or(Stop::Abort(format!("no field {n}"))),
                    V::Opt(None) => Ok(V::none()),
                    V::Opt(Some(t)) => match *t {
                        V::Tuple(m) => m.get(&n).cloned().map(V::some).ok_or(Stop::Abort(format!("no field {n}"))),
                        _ => abort("get"),
                    },
                    _ => abort("get of no tuple"),
                }
            }
            ("get-burn-block-info?", [p, n]) => {
                let p = name(p)?;
                match (p.as_str(), self.eval(n, env, ctx)?) {
                    ("header-hash", V::UInt(n)) => {
                        Ok(V::Opt(self.burn_headers.get(&n).map(|h| Box::new(V::Buff(h.clone())))))
                    }
                    _ => abort("get-burn-block-info?"),
                }
            }
            ("contract-call?", [target, f, rest @ ..]) => {
                let V::Principal(id) = self.eval(target, env, ctx)? else { return abort("contract-call?") };
                let f = name(f)?;
                let mut vals = vec![];
                for e in rest {
                    vals.push(self.eval(e, env, ctx)?);
                }
                let Some(code) = self.code.get(&id).cloned() else { return abort(format!("no contract {id}")) };
                let Some(func) = code.funcs.get(&f).cloned() else { return abort(format!("no function {f}")) };
                if !func.public && !func.read_only {
                    return abort(format!("{f} is private"));
                }
                let before = self.state.clone();
                let inner = Ctx {
                    contract: &id,
                    code,
                    sender: ctx.sender.clone(),
                    caller: ctx.contract.into(),
                    depth: ctx.depth + 1,
                };
                let r = self.apply(&func, vals, &inner)?;
                if matches!(r, V::Resp(false, _)) {
                    self.state = before;
                }
                Ok(r)
            }
            ("as-contract", [e]) => {
                let inner = Ctx {
                    contract: ctx.contract,
                    code: ctx.code.clone(),
                    sender: ctx.contract.into(),
                    caller: ctx.contract.into(),
                    depth: ctx.depth + 1,
                };
                self.eval(e, env, &inner)
            }
            ("fold", [f, seq, init]) => {
                let f = name(f)?;
                let items = items(self.eval(seq, env, ctx)?)?;
                let mut acc = self.eval(init, env, ctx)?;
                for i in items {
                    acc = self.apply_name(&f, vec![i, acc], ctx)?;
                }
                Ok(acc)
            }
            ("map", [f, seqs @ ..]) => {
                let f = name(f)?;
                let mut cols = vec![];
                for s in seqs {
                    cols.push(items(self.eval(s, env, ctx)?)?);
                }
                let n = cols.iter().map(|c| c.len()).min().unwrap_or(0);
                let mut out = vec![];
                for i in 0..n {
                    out.push(self.apply_name(&f, cols.iter().map(|c| c[i].clone()).collect(), ctx)?);
                }
                Ok(V::List(out))
            }
            ("filter", [f, seq]) => {
                let f = name(f)?;
                let mut out = vec![];
                for i in items(self.eval(seq, env, ctx)?)? {
                    if self.apply_name(&f, vec![i.clone()], ctx)? == V::Bool(true) {
                        out.push(i);
                    }
                }
                Ok(V::List(out))
            }
            _ => {
                let mut vals = vec![];
                // the length limit of as-max-len? is a literal
                for e in a {
                    vals.push(self.eval(e, env, ctx)?);
                }
                self.apply_name(h, vals, ctx)
            }
        }
    }

    fn apply_name(&mut self, f: &str, args: Vec<V>, ctx: &Ctx) -> R {
        if let Some(func) = ctx.code.funcs.get(f).cloned() {
            let inner = Ctx {
                contract: ctx.contract,
                code: ctx.code.clone(),
                sender: ctx.sender.clone(),
                caller: ctx.caller.clone(),
                depth: ctx.depth + 1,
            };
            return self.apply(&func, args, &inner);
        }
        if f == "print" {
            self.state.events += 1;
            return match args.into_iter().next() {
                Some(v) => Ok(v),
                None => abort("print"),
            };
        }
        native(f, args)
    }
}

fn items(v: V) -> Result<Vec<V>, Stop> {
    match v {
        V::List(l) => Ok(l),
        V::Buff(b) => Ok(b.into_iter().map(|x| V::Buff(vec![x])).collect()),
        V::Str(s) => Ok(s.chars().map(|c| V::Str(c.to_string())).collect()),
        _ => abort("not a sequence"),
    }
}

fn root(x: u128) -> u128 {
    let (mut lo, mut hi) = (0u128, 1u128 << 64);
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if mid.checked_mul(mid).is_some_and(|m| m <= x) {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo
}

fn native(f: &str, a: Vec<V>) -> R {
    let over = || Stop::Abort("ArithmeticOverflow".into());
    let under = || Stop::Abort("ArithmeticUnderflow".into());
    let zero = || Stop::Abort("DivisionByZero".into());
    let bad = || abort(format!("{f}: bad arguments {}", a.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")));
    let uints = |a: &[V]| -> Option<Vec<u128>> {
        a.iter().map(|v| if let V::UInt(i) = v { Some(*i) } else { None }).collect()
    };
    let ints = |a: &[V]| -> Option<Vec<i128>> {
        a.iter().map(|v| if let V::Int(i) = v { Some(*i) } else { None }).collect()
    };
    match f {
        "+" | "-" | "*" | "/" if !a.is_empty() => {
            if let Some(n) = uints(&a) {
                let mut acc = n[0];
                if n.len() == 1 && f == "-" {
                    return Err(under());
                }
                for x in &n[1..] {
                    acc = match f {
                        "+" => acc.checked_add(*x).ok_or_else(over)?,
                        "-" => acc.checked_sub(*x).ok_or_else(under)?,
                        "*" => acc.checked_mul(*x).ok_or_else(over)?,
                        _ => acc.checked_div(*x).ok_or_else(zero)?,
                    }
                }
                Ok(V::UInt(acc))
            } else if let Some(n) = ints(&a) {
                let mut acc = n[0];
                if n.len() == 1 && f == "-" {
                    return Ok(V::Int(acc.checked_neg().ok_or_else(over)?));
                }
                for x in &n[1..] {
                    acc = match f {
                        "+" => acc.checked_add(*x).ok_or_else(over)?,
                        "-" => acc.checked_sub(*x).ok_or_else(under)?,
                        "*" => acc.checked_mul(*x).ok_or_else(over)?,
                        _ => acc.checked_div(*x).ok_or_else(zero)?,
                    }
                }
                Ok(V::Int(acc))
            } else {
                bad()
            }
        }
        "mod" => match &a[..] {
            [V::UInt(x), V::UInt(y)] => x.checked_rem(*y).map(V::UInt).ok_or_else(zero),
            [V::Int(x), V::Int(y)] => x.checked_rem(*y).map(V::Int).ok_or_else(zero),
            _ => bad(),
        },
        "pow" => match &a[..] {
            [V::UInt(x), V::UInt(y)] => {
                x.checked_pow(u32::try_from(*y).map_err(|_| over())?).map(V::UInt).ok_or_else(over)
            }
            [V::Int(x), V::Int(y)] => {
                x.checked_pow(u32::try_from(*y).map_err(|_| over())?).map(V::Int).ok_or_else(over)
            }
            _ => bad(),
        },
        "bit-and" | "bit-or" | "bit-xor" | "xor" if !a.is_empty() => {
            let op = |x: u128, y: u128| match f {
                "bit-and" => x & y,
                "bit-or" => x | y,
                _ => x ^ y,
            };
            if let Some(n) = uints(&a) {
                Ok(V::UInt(n[1..].iter().fold(n[0], |x, y| op(x, *y))))
            } else if let Some(n) = ints(&a) {
                Ok(V::Int(n[1..].iter().fold(n[0], |x, y| op(x as u128, *y as u128) as i128)))
            } else {
                bad()
            }
        }
        "bit-not" => match &a[..] {
            [V::UInt(x)] => Ok(V::UInt(!x)),
            [V::Int(x)] => Ok(V::Int(!x)),
            _ => bad(),
        },
        "bit-shift-left" | "bit-shift-right" => match &a[..] {
            [V::UInt(x), V::UInt(n)] => {
                let n = (*n % 128) as u32;
                Ok(V::UInt(if f == "bit-shift-left" { x << n } else { x >> n }))
            }
            [V::Int(x), V::UInt(n)] => {
                let n = (*n % 128) as u32;
                Ok(V::Int(if f == "bit-shift-left" { x << n } else { x >> n }))
            }
            _ => bad(),
        },
        "<" | ">" | "<=" | ">=" => {
            let o = match &a[..] {
                [V::UInt(x), V::UInt(y)] => x.cmp(y),
                [V::Int(x), V::Int(y)] => x.cmp(y),
                [V::Buff(x), V::Buff(y)] => x.cmp(y),
                [V::Str(x), V::Str(y)] => x.cmp(y),
                _ => return bad(),
            };
            Ok(V::Bool(match f {
                "<" => o.is_lt(),
                ">" => o.is_gt(),
                "<=" => o.is_le(),
                _ => o.is_ge(),
            }))
        }
        "is-eq" if !a.is_empty() => Ok(V::Bool(a.iter().all(|v| *v == a[0]))),
        "not" => match &a[..] {
            [V::Bool(b)] => Ok(V::Bool(!b)),
            _ => bad(),
        },
        "ok" if a.len() == 1 => Ok(V::ok(a[0].clone())),
        "err" if a.len() == 1 => Ok(V::err(a[0].clone())),
        "some" if a.len() == 1 => Ok(V::some(a[0].clone())),
        "is-some" | "is-none" => match &a[..] {
            [V::Opt(o)] => Ok(V::Bool(o.is_some() == (f == "is-some"))),
            _ => bad(),
        },
        "is-ok" | "is-err" => match &a[..] {
            [V::Resp(k, _)] => Ok(V::Bool(*k == (f == "is-ok"))),
            _ => bad(),
        },
        "list" => Ok(V::List(a)),
        "len" => match &a[..] {
            [V::Buff(b)] => Ok(V::UInt(b.len() as u128)),
            [V::List(b)] => Ok(V::UInt(b.len() as u128)),
            [V::Str(b)] => Ok(V::UInt(b.len() as u128)),
            [V::Utf8(b)] => Ok(V::UInt(b.chars().count() as u128)),
            _ => bad(),
        },
        "concat" => match &a[..] {
            [V::Buff(x), V::Buff(y)] => Ok(V::Buff([&x[..], y].concat())),
            [V::List(x), V::List(y)] => Ok(V::List([&x[..], y].concat())),
            [V::Str(x), V::Str(y)] => Ok(V::Str(format!("{x}{y}"))),
            _ => bad(),
        },
        "append" => match &a[..] {
            [V::List(x), y] => {
                let mut x = x.clone();
                x.push(y.clone());
                Ok(V::List(x))
            }
            _ => bad(),
        },
        "as-max-len?" => match &a[..] {
            [s @ (V::Buff(_) | V::List(_) | V::Str(_) | V::Utf8(_)), V::UInt(n)] => {
                let l = match s {
                    V::Buff(b) => b.len(),
                    V::List(b) => b.len(),
                    V::Str(b) => b.len(),
                    V::Utf8(b) => b.chars().count(),
                    _ => 0,
                };
                Ok(if l as u128 <= *n { V::some(s.clone()) } else { V::none() })
            }
            _ => bad(),
        },
        "element-at" | "element-at?" => match &a[..] {
            [V::Buff(b), V::UInt(n)] => {
                Ok(V::Opt(usize::try_from(*n).ok().and_then(|n| b.get(n)).map(|x| Box::new(V::Buff(vec![*x])))))
            }
            [V::List(b), V::UInt(n)] => {
                Ok(V::Opt(usize::try_from(*n).ok().and_then(|n| b.get(n)).map(|x| Box::new(x.clone()))))
            }
            _ => bad(),
        },
        "index-of" | "index-of?" => match &a[..] {
            [V::List(b), x] => Ok(V::Opt(b.iter().position(|y| y == x).map(|i| Box::new(V::UInt(i as u128))))),
            [V::Buff(b), V::Buff(x)] if x.len() == 1 => {
                Ok(V::Opt(b.iter().position(|y| *y == x[0]).map(|i| Box::new(V::UInt(i as u128)))))
            }
            _ => bad(),
        },
        "slice?" => {
            let cut = |n: usize, l: u128, r: u128| (l <= r && r <= n as u128).then_some((l as usize, r as usize));
            match &a[..] {
                [V::Buff(b), V::UInt(l), V::UInt(r)] => {
                    Ok(V::Opt(cut(b.len(), *l, *r).map(|(l, r)| Box::new(V::Buff(b[l..r].to_vec())))))
                }
                [V::List(b), V::UInt(l), V::UInt(r)] => {
                    Ok(V::Opt(cut(b.len(), *l, *r).map(|(l, r)| Box::new(V::List(b[l..r].to_vec())))))
                }
                [V::Str(b), V::UInt(l), V::UInt(r)] => {
                    Ok(V::Opt(cut(b.len(), *l, *r).map(|(l, r)| Box::new(V::Str(b[l..r].to_string())))))
                }
                _ => bad(),
            }
        }
        "replace-at?" => match &a[..] {
            [V::Buff(b), V::UInt(n), V::Buff(x)] if x.len() == 1 => Ok(match b.get(*n as usize) {
                Some(_) if *n < b.len() as u128 => {
                    let mut b = b.clone();
                    b[*n as usize] = x[0];
                    V::some(V::Buff(b))
                }
                _ => V::none(),
            }),
            [V::List(b), V::UInt(n), x] => Ok(if *n < b.len() as u128 {
                let mut b = b.clone();
                b[*n as usize] = x.clone();
                V::some(V::List(b))
            } else {
                V::none()
            }),
            _ => bad(),
        },
        "sqrti" => match &a[..] {
            [V::UInt(x)] => Ok(V::UInt(root(*x))),
            [V::Int(x)] if *x >= 0 => Ok(V::Int(root(*x as u128) as i128)),
            _ => bad(),
        },
        "log2" => match &a[..] {
            [V::UInt(x)] if *x > 0 => Ok(V::UInt(127 - x.leading_zeros() as u128)),
            [V::Int(x)] if *x > 0 => Ok(V::Int(127 - x.leading_zeros() as i128)),
            _ => bad(),
        },
        "is-standard" => match &a[..] {
            [V::Principal(p)] => Ok(V::Bool(p.starts_with("ST") || p.starts_with("SN"))),
            _ => bad(),
        },
        "int-to-ascii" | "int-to-utf8" => {
            let s = match &a[..] {
                [V::UInt(x)] => x.to_string(),
                [V::Int(x)] => x.to_string(),
                _ => return bad(),
            };
            Ok(if f == "int-to-ascii" { V::Str(s) } else { V::Utf8(s) })
        }
        "string-to-int?" | "string-to-uint?" => match &a[..] {
            [V::Str(s) | V::Utf8(s)] if f == "string-to-int?" => {
                Ok(V::Opt(s.parse().ok().map(|i| Box::new(V::Int(i)))))
            }
            [V::Str(s) | V::Utf8(s)] => Ok(V::Opt(s.parse().ok().map(|i| Box::new(V::UInt(i))))),
            _ => bad(),
        },
        "merge" => match &a[..] {
            [V::Tuple(x), V::Tuple(y)] => {
                let mut x = x.clone();
                x.extend(y.clone());
                Ok(V::Tuple(x))
            }
            _ => bad(),
        },
        "to-int" => match &a[..] {
            [V::UInt(x)] => i128::try_from(*x).map(V::Int).map_err(|_| over()),
            _ => bad(),
        },
        "to-uint" => match &a[..] {
            [V::Int(x)] => u128::try_from(*x).map(V::UInt).map_err(|_| under()),
            _ => bad(),
        },
        "sha256" | "hash160" | "sha512" | "sha512/256" => {
            let b = match &a[..] {
                [V::Buff(b)] => b.clone(),
                [V::UInt(i)] => i.to_le_bytes().to_vec(),
                [V::Int(i)] => i.to_le_bytes().to_vec(),
                _ => return bad(),
            };
            Ok(V::Buff(match f {
                "sha256" => Sha256::digest(&b).to_vec(),
                "sha512" => Sha512::digest(&b).to_vec(),
                "sha512/256" => Sha512_256::digest(&b).to_vec(),
                _ => ripemd::Ripemd160::digest(Sha256::digest(&b)).to_vec(),
            }))
        }
        "to-consensus-buff?" if a.len() == 1 => Ok(V::some(V::Buff(a[0].bytes()))),
        "buff-to-uint-le" | "buff-to-uint-be" | "buff-to-int-le" | "buff-to-int-be" => match &a[..] {
            [V::Buff(b)] if b.len() <= 16 => {
                let mut w = [0u8; 16];
                let u = if f.ends_with("le") {
                    w[..b.len()].copy_from_slice(b);
                    u128::from_le_bytes(w)
                } else {
                    w[16 - b.len()..].copy_from_slice(b);
                    u128::from_be_bytes(w)
                };
                Ok(if f.contains("uint") { V::UInt(u) } else { V::Int(u as i128) })
            }
            _ => bad(),
        },
        _ => abort(format!("unknown function {f}")),
    }
}
