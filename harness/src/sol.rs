//! A small interpreter for the Solidity subset that verifier contracts are
//! written in: typed expressions, reference semantics over byte-addressed EVM
//! memory, inline assembly, and the alt_bn128 precompiles.
use crate::refm::*;
use crate::wei::{self, K, Q2};
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, ToPrimitive, Zero};
use pairing::bn256::Bn256;
use pairing::Engine;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// execution reverted or aborted
    Revert(String),
    /// the contract is not valid Solidity
    Compile(String),
    /// more steps than any block allows
    Gas,
    /// a construct this interpreter does not know: no answer
    Unsupported(String),
}
type Rs<T> = Result<T, Stop>;
fn unsup<T>(s: impl Into<String>) -> Rs<T> { Err(Stop::Unsupported(s.into())) }
fn bad<T>(s: impl Into<String>) -> Rs<T> { Err(Stop::Compile(s.into())) }
fn revert<T>(s: impl Into<String>) -> Rs<T> { Err(Stop::Revert(s.into())) }

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
enum T { Id(String), Num(BigUint), Str(String), P(String), Eof }

fn lex(s: &str) -> Rs<Vec<T>> {
    let b: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let ops = [">>>=", "<<=", ">>=", "**", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "=>", "<<", ">>", ":=", "->"];
    'o: while i < b.len() {
        let c = b[i];
        if c.is_whitespace() { i += 1; continue; }
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' { while i < b.len() && b[i] != '\n' { i += 1; } continue; }
        if c == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') { i += 1; }
            i += 2;
            continue;
        }
        if c.is_alphabetic() || c == '_' || c == '$' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$') { i += 1; }
            v.push(T::Id(b[st..i].iter().collect()));
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let t: String = b[st..i].iter().filter(|c| **c != '_').collect();
            let n = if t.starts_with("0x") || t.starts_with("0X") { BigUint::parse_bytes(t[2..].as_bytes(), 16) }
                else if let Some(p) = t.find(|c| c == 'e' || c == 'E') {
                    let m = BigUint::parse_bytes(t[..p].as_bytes(), 10);
                    let e: Option<usize> = t[p + 1..].parse().ok();
                    match (m, e) { (Some(m), Some(e)) if e < 100 => Some(m * num::pow(BigUint::from(10u32), e)), _ => None }
                } else {
                    if t.len() > 1 && t.starts_with('0') { return bad(format!("octal-looking literal {}", t)); }
                    BigUint::parse_bytes(t.as_bytes(), 10)
                };
            match n { Some(n) => v.push(T::Num(n)), None => return bad(format!("bad number literal {}", t)) }
            continue;
        }
        if c == '"' || c == '\'' {
            let st = i + 1;
            i += 1;
            while i < b.len() && b[i] != c { if b[i] == '\\' { i += 1; } i += 1; }
            if i >= b.len() { return bad("unterminated string"); }
            v.push(T::Str(b[st..i].iter().collect()));
            i += 1;
            continue;
        }
        for o in ops.iter() {
            let oc: Vec<char> = o.chars().collect();
            if b[i..].starts_with(&oc) { v.push(T::P(o.to_string())); i += oc.len(); continue 'o; }
        }
        if "(){}[];,.=+-*/%<>!&|^~?:".contains(c) { v.push(T::P(c.to_string())); i += 1; continue; }
        return bad(format!("unexpected character {:?}", c));
    }
    v.push(T::Eof);
    Ok(v)
}

// ------------------------------------------------------------------ syntax
#[derive(Clone, Debug, PartialEq)]
enum Tn { Name(Vec<String>), Arr(Box<Tn>, Option<Box<X>>) , Map }

#[derive(Clone, Debug, PartialEq)]
enum X {
    Num(BigUint), Str(String), Bool(bool), Id(String), Mem(Box<X>, String), Idx(Box<X>, Box<X>), Call(Box<X>, Vec<X>), NamedCall(Box<X>, Vec<(String, X)>),
    New(Tn), Un(String, Box<X>), Post(String, Box<X>), Bin(String, Box<X>, Box<X>), Asg(String, Box<X>, Box<X>), Cond(Box<X>, Box<X>, Box<X>), Arr(Vec<X>), Tup(Vec<Option<X>>), Ty(Tn),
}
#[derive(Clone, Debug)]
enum St {
    Decl(Tn, String, Option<X>), TupDecl(Vec<Option<(Tn, String)>>, X), Ex(X), If(X, Box<St>, Option<Box<St>>), For(Option<Box<St>>, Option<X>, Option<X>, Box<St>), While(X, Box<St>), DoWhile(Box<St>, X),
    Ret(Option<X>), Block(Vec<St>), Asm(Vec<Y>), Break, Continue, Nop, Hole,
}
#[derive(Clone, Debug)]
enum Y { Let(Vec<String>, Option<Ye>), Set(Vec<String>, Ye), Ex(Ye), If(Ye, Vec<Y>), Switch(Ye, Vec<(BigUint, Vec<Y>)>, Option<Vec<Y>>), For(Vec<Y>, Ye, Vec<Y>, Vec<Y>), Block(Vec<Y>), Break, Continue, Fun(String, Vec<String>, Vec<String>, Vec<Y>), Leave }
#[derive(Clone, Debug)]
enum Ye { N(BigUint), Id(String), Call(String, Vec<Ye>) }

#[derive(Clone, Debug)]
struct Fun { name: String, params: Vec<(Tn, String)>, rets: Vec<(Tn, String)>, vis: String, mods: Vec<(String, Vec<X>)>, body: Option<Vec<St>> }
#[derive(Clone, Debug, Default)]
struct Unit { name: String, kind: String, bases: Vec<String>, structs: HashMap<String, Vec<(Tn, String)>>, consts: Vec<(Tn, String, Option<X>, bool)>, funs: Vec<Fun>, mods: Vec<Fun>, using: Vec<String> }

struct P { t: Vec<T>, i: usize }
fn elementary(s: &str) -> bool {
    let n = |p: &str| s.strip_prefix_(p).map(|r| r.is_empty() || r.parse::<u16>().is_ok()).unwrap_or(false);
    n("uint") || n("int") || n("bytes") || s == "bool" || s == "address" || s == "string" || s == "byte"
}
trait StripPrefix { fn strip_prefix_(&self, p: &str) -> Option<&str>; }
impl StripPrefix for str { fn strip_prefix_(&self, p: &str) -> Option<&str> { if self.starts_with(p) { Some(&self[p.len()..]) } else { None } } }

impl P {
    fn peek(&self) -> &T { &self.t[self.i] }
    fn at(&self, k: usize) -> &T { self.t.get(self.i + k).unwrap_or(&T::Eof) }
    fn next(&mut self) -> T { let t = self.t[self.i].clone(); if self.i + 1 < self.t.len() { self.i += 1; } t }
    fn is(&self, s: &str) -> bool { matches!(self.peek(), T::P(p) if p == s) }
    fn isid(&self, s: &str) -> bool { matches!(self.peek(), T::Id(p) if p == s) }
    fn eat(&mut self, s: &str) -> bool { if self.is(s) { self.next(); true } else { false } }
    fn eatid(&mut self, s: &str) -> bool { if self.isid(s) { self.next(); true } else { false } }
    fn want(&mut self, s: &str) -> Rs<()> { if self.eat(s) { Ok(()) } else { bad(format!("expected '{}' but found {:?} {:?} {:?}", s, self.peek(), self.at(1), self.at(2))) } }
    fn id(&mut self) -> Rs<String> { match self.next() { T::Id(s) => Ok(s), t => bad(format!("expected a name, found {:?}", t)) } }

    fn ty(&mut self) -> Rs<Tn> {
        let n = self.id()?;
        if n == "mapping" {
            self.want("(")?;
            let mut d = 1;
            while d > 0 { match self.next() { T::P(p) if p == "(" => d += 1, T::P(p) if p == ")" => d -= 1, T::Eof => return bad("mapping"), _ => {} } }
            return Ok(Tn::Map);
        }
        let mut path = vec![n];
        if !elementary(&path[0]) {
            while self.is(".") { self.next(); path.push(self.id()?); }
        } else if path[0] == "address" { self.eatid("payable"); }
        let mut t = Tn::Name(path);
        while self.is("[") {
            self.next();
            if self.eat("]") { t = Tn::Arr(Box::new(t), None); } else { let e = self.expr()?; self.want("]")?; t = Tn::Arr(Box::new(t), Some(Box::new(e))); }
        }
        Ok(t)
    }
    fn loc(&mut self) { while self.isid("memory") || self.isid("storage") || self.isid("calldata") { self.next(); } }
    fn params(&mut self) -> Rs<Vec<(Tn, String)>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.is(")") {
            let t = self.ty()?;
            self.loc();
            let n = if let T::Id(_) = self.peek() { self.id()? } else { String::new() };
            v.push((t, n));
            if !self.eat(",") { break; }
        }
        self.want(")")?;
        Ok(v)
    }
    fn file(&mut self) -> Rs<(Vec<Unit>, Option<String>)> {
        let mut v = vec![];
        let mut pragma = None;
        loop {
            match self.peek().clone() {
                T::Eof => return Ok((v, pragma)),
                T::Id(k) if k == "pragma" => {
                    let mut s = String::new();
                    while !self.is(";") { match self.next() { T::Id(x) => s += &x, T::Num(n) => s += &n.to_string(), T::P(p) => s += &p, T::Str(x) => s += &x, T::Eof => return bad("pragma") } s += " "; }
                    self.next();
                    if s.contains("solidity") { pragma = Some(s); }
                }
                T::Id(k) if k == "import" => return unsup("import"),
                T::Id(k) if k == "library" || k == "contract" || k == "interface" || k == "abstract" => {
                    self.next();
                    let kind = if k == "abstract" { self.id()? } else { k };
                    v.push(self.unit(kind)?);
                }
                t => return bad(format!("unexpected {:?} at file level", t)),
            }
        }
    }
    fn unit(&mut self, kind: String) -> Rs<Unit> {
        let mut u = Unit { name: self.id()?, kind, ..Default::default() };
        if self.eatid("is") { loop { u.bases.push(self.id()?); if !self.eat(",") { break; } } }
        self.want("{")?;
        while !self.eat("}") {
            match self.peek().clone() {
                T::Id(k) if k == "struct" => {
                    self.next();
                    let n = self.id()?;
                    self.want("{")?;
                    let mut f = vec![];
                    while !self.eat("}") { let t = self.ty()?; let n = self.id()?; self.want(";")?; f.push((t, n)); }
                    u.structs.insert(n, f);
                }
                T::Id(k) if k == "using" => { self.next(); u.using.push(self.id()?); while !self.eat(";") { if let T::Eof = self.next() { return bad("using"); } } }
                T::Id(k) if k == "event" => { while !self.eat(";") { if let T::Eof = self.next() { return bad("event"); } } }
                T::Id(k) if k == "function" => { self.next(); let n = self.id()?; let f = self.fun(n)?; u.funs.push(f); }
                T::Id(k) if k == "modifier" => {
                    self.next();
                    let name = self.id()?;
                    let params = if self.is("(") { self.params()? } else { vec![] };
                    while self.isid("virtual") || self.isid("override") { self.next(); }
                    let body = Some(self.block()?);
                    u.mods.push(Fun { name, params, rets: vec![], vis: String::new(), mods: vec![], body });
                }
                T::Id(k) if k == "constructor" || k == "enum" || k == "fallback" || k == "receive" => return unsup(k),
                T::Id(_) => {
                    let t = self.ty()?;
                    let mut constant = false;
                    loop {
                        if self.isid("constant") || self.isid("immutable") { constant = true; self.next(); }
                        else if self.isid("public") || self.isid("private") || self.isid("internal") { self.next(); }
                        else { break; }
                    }
                    let n = self.id()?;
                    let e = if self.eat("=") { Some(self.expr()?) } else { None };
                    self.want(";")?;
                    u.consts.push((t, n, e, constant));
                }
                t => return bad(format!("unexpected {:?} in {}", t, u.name)),
            }
        }
        Ok(u)
    }
    fn fun(&mut self, name: String) -> Rs<Fun> {
        let params = self.params()?;
        let mut f = Fun { name, params, rets: vec![], vis: String::new(), mods: vec![], body: None };
        loop {
            match self.peek().clone() {
                T::Id(k) if ["public", "private", "internal", "external"].contains(&&k[..]) => { f.vis = k; self.next(); }
                T::Id(k) if ["pure", "view", "virtual", "override", "constant", "payable"].contains(&&k[..]) => { self.next(); }
                T::Id(k) if k == "returns" => { self.next(); f.rets = self.params()?; }
                T::Id(k) => { self.next(); let a = if self.is("(") { self.next(); self.args()? } else { vec![] }; f.mods.push((k, a)); }
                T::P(p) if p == ";" => { self.next(); return Ok(f); }
                _ => break,
            }
        }
        if f.vis.is_empty() { return bad(format!("function {} has no visibility", f.name)); }
        f.body = Some(self.block()?);
        Ok(f)
    }
    fn block(&mut self) -> Rs<Vec<St>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") { if let T::Eof = self.peek() { return bad("unexpected end of file"); } v.push(self.stmt()?); }
        Ok(v)
    }
    fn decl(&mut self) -> Option<(Tn, String)> {
        let save = self.i;
        if let T::Id(_) = self.peek() {
            if let Ok(t) = self.ty() {
                let had = self.isid("memory") || self.isid("storage") || self.isid("calldata");
                self.loc();
                if let T::Id(n) = self.peek().clone() {
                    self.next();
                    if had || self.is("=") || self.is(";") || self.is(",") || self.is(")") { return Some((t, n)); }
                }
            }
        }
        self.i = save;
        None
    }
    fn simple(&mut self) -> Rs<St> {
        if self.is("(") {
            // tuple declaration?
            let save = self.i;
            self.next();
            let mut v = vec![];
            let mut ok = true;
            let mut any = false;
            loop {
                if self.is(",") { self.next(); v.push(None); continue; }
                if self.is(")") { self.next(); break; }
                match self.decl() { Some(d) => { any = true; v.push(Some(d)); } None => { ok = false; break; } }
                if self.is(",") { self.next(); if self.is(")") { v.push(None); } } else if !self.is(")") { ok = false; break; }
            }
            if ok && any && self.eat("=") { let e = self.expr()?; return Ok(St::TupDecl(v, e)); }
            self.i = save;
        }
        if let Some((t, n)) = self.decl() {
            let e = if self.eat("=") { Some(self.expr()?) } else { None };
            return Ok(St::Decl(t, n, e));
        }
        Ok(St::Ex(self.expr()?))
    }
    fn stmt(&mut self) -> Rs<St> {
        if self.is("{") { return Ok(St::Block(self.block()?)); }
        if self.eat(";") { return Ok(St::Nop); }
        if let T::Id(k) = self.peek().clone() {
            match &k[..] {
                "_" if matches!(self.at(1), T::P(p) if p == ";") => { self.next(); self.next(); return Ok(St::Hole); }
                "if" => {
                    self.next();
                    self.want("(")?;
                    let c = self.expr()?;
                    self.want(")")?;
                    let a = self.stmt()?;
                    let b = if self.eatid("else") { Some(Box::new(self.stmt()?)) } else { None };
                    return Ok(St::If(c, Box::new(a), b));
                }
                "for" => {
                    self.next();
                    self.want("(")?;
                    let i = if self.is(";") { None } else { Some(Box::new(self.simple()?)) };
                    self.want(";")?;
                    let c = if self.is(";") { None } else { Some(self.expr()?) };
                    self.want(";")?;
                    let p = if self.is(")") { None } else { Some(self.expr()?) };
                    self.want(")")?;
                    let b = self.stmt()?;
                    return Ok(St::For(i, c, p, Box::new(b)));
                }
                "while" => { self.next(); self.want("(")?; let c = self.expr()?; self.want(")")?; return Ok(St::While(c, Box::new(self.stmt()?))); }
                "do" => { self.next(); let b = self.stmt()?; if !self.eatid("while") { return bad("do without while"); } self.want("(")?; let c = self.expr()?; self.want(")")?; self.want(";")?; return Ok(St::DoWhile(Box::new(b), c)); }
                "return" => { self.next(); if self.eat(";") { return Ok(St::Ret(None)); } let e = self.expr()?; self.want(";")?; return Ok(St::Ret(Some(e))); }
                "break" => { self.next(); self.want(";")?; return Ok(St::Break); }
                "continue" => { self.next(); self.want(";")?; return Ok(St::Continue); }
                "unchecked" => { self.next(); return Ok(St::Block(self.block()?)); }
                "emit" => { while !self.eat(";") { if let T::Eof = self.next() { return bad("emit"); } } return Ok(St::Nop); }
                "assembly" => { self.next(); if let T::Str(_) = self.peek() { self.next(); } return Ok(St::Asm(self.yblock()?)); }
                "try" => return unsup("try"),
                _ => {}
            }
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }
    fn expr(&mut self) -> Rs<X> {
        let l = self.tern()?;
        for o in &["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="] {
            if self.eat(o) { let r = self.expr()?; return Ok(X::Asg(o[..o.len() - 1].to_string(), Box::new(l), Box::new(r))); }
        }
        Ok(l)
    }
    fn tern(&mut self) -> Rs<X> {
        let c = self.bin(0)?;
        if self.eat("?") { let a = self.expr()?; self.want(":")?; let b = self.expr()?; return Ok(X::Cond(Box::new(c), Box::new(a), Box::new(b))); }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> Rs<X> {
        const L: [&[&str]; 10] = [&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lvl == L.len() { return self.pow(); }
        let mut l = self.bin(lvl + 1)?;
        'o: loop {
            for o in L[lvl] { if self.is(o) { self.next(); let r = self.bin(lvl + 1)?; l = X::Bin(o.to_string(), Box::new(l), Box::new(r)); continue 'o; } }
            return Ok(l);
        }
    }
    fn pow(&mut self) -> Rs<X> {
        let l = self.unary()?;
        if self.eat("**") { let r = self.pow()?; return Ok(X::Bin("**".into(), Box::new(l), Box::new(r))); }
        Ok(l)
    }
    fn unary(&mut self) -> Rs<X> {
        for o in &["!", "-", "~", "++", "--", "+"] { if self.eat(o) { let e = self.unary()?; return Ok(X::Un(o.to_string(), Box::new(e))); } }
        if self.eatid("delete") { let e = self.unary()?; return Ok(X::Un("delete".into(), Box::new(e))); }
        self.postfix()
    }
    fn args(&mut self) -> Rs<Vec<X>> {
        let mut v = vec![];
        while !self.is(")") { v.push(self.expr()?); if !self.eat(",") { break; } }
        self.want(")")?;
        Ok(v)
    }
    fn postfix(&mut self) -> Rs<X> {
        let mut e = self.prim()?;
        loop {
            if self.eat(".") { let n = self.id()?; e = X::Mem(Box::new(e), n); }
            else if self.is("[") { self.next(); if self.eat("]") { match e { X::Ty(t) => e = X::Ty(Tn::Arr(Box::new(t), None)), _ => return unsup("type expression") } } else { let i = self.expr()?; self.want("]")?; e = X::Idx(Box::new(e), Box::new(i)); } }
            else if self.is("(") {
                self.next();
                if self.eat("{") {
                    let mut v = vec![];
                    while !self.eat("}") { let n = self.id()?; self.want(":")?; let x = self.expr()?; v.push((n, x)); self.eat(","); }
                    self.want(")")?;
                    e = X::NamedCall(Box::new(e), v);
                } else { let a = self.args()?; e = X::Call(Box::new(e), a); }
            }
            else if self.is("++") || self.is("--") { let o = if self.is("++") { "++" } else { "--" }; self.next(); e = X::Post(o.into(), Box::new(e)); }
            else { return Ok(e); }
        }
    }
    fn prim(&mut self) -> Rs<X> {
        match self.next() {
            T::Num(n) => Ok(X::Num(n)),
            T::Str(s) => Ok(X::Str(s)),
            T::Id(s) => Ok(match &s[..] {
                "true" => X::Bool(true), "false" => X::Bool(false),
                "new" => X::New(self.ty()?),
                _ if elementary(&s) => X::Ty(Tn::Name(vec![s])),
                _ => X::Id(s),
            }),
            T::P(p) if p == "(" => {
                let mut v = vec![];
                if self.eat(")") { return Ok(X::Tup(v)); }
                loop {
                    if self.is(",") { self.next(); v.push(None); if self.is(")") { v.push(None); self.next(); break; } continue; }
                    v.push(Some(self.expr()?));
                    if self.eat(",") { if self.is(")") { v.push(None); self.next(); break; } continue; }
                    self.want(")")?;
                    break;
                }
                if v.len() == 1 { if let Some(x) = v.pop().unwrap() { return Ok(x); } }
                Ok(X::Tup(v))
            }
            T::P(p) if p == "[" => {
                let mut v = vec![];
                loop { v.push(self.expr()?); if !self.eat(",") { break; } }
                self.want("]")?;
                Ok(X::Arr(v))
            }
            t => bad(format!("unexpected {:?} in an expression", t)),
        }
    }
    // ---- assembly
    fn yblock(&mut self) -> Rs<Vec<Y>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") { if let T::Eof = self.peek() { return bad("unexpected end of file"); } v.push(self.ystmt()?); }
        Ok(v)
    }
    fn ystmt(&mut self) -> Rs<Y> {
        if self.is("{") { return Ok(Y::Block(self.yblock()?)); }
        if let T::Id(k) = self.peek().clone() {
            match &k[..] {
                "let" => {
                    self.next();
                    let mut n = vec![self.id()?];
                    while self.eat(",") { n.push(self.id()?); }
                    let e = if self.eat(":=") { Some(self.yexpr()?) } else { None };
                    return Ok(Y::Let(n, e));
                }
                "if" => { self.next(); let e = self.yexpr()?; return Ok(Y::If(e, self.yblock()?)); }
                "switch" => {
                    self.next();
                    let e = self.yexpr()?;
                    let mut cs = vec![];
                    let mut d = None;
                    loop {
                        if self.eatid("case") { let n = match self.next() { T::Num(n) => n, T::Id(s) if s == "true" => BigUint::one(), T::Id(s) if s == "false" => BigUint::zero(), _ => return bad("case needs a literal") }; cs.push((n, self.yblock()?)); }
                        else if self.eatid("default") { d = Some(self.yblock()?); break; }
                        else { break; }
                    }
                    return Ok(Y::Switch(e, cs, d));
                }
                "for" => { self.next(); let a = self.yblock()?; let c = self.yexpr()?; let p = self.yblock()?; let b = self.yblock()?; return Ok(Y::For(a, c, p, b)); }
                "break" => { self.next(); return Ok(Y::Break); }
                "continue" => { self.next(); return Ok(Y::Continue); }
                "leave" => { self.next(); return Ok(Y::Leave); }
                "function" => {
                    self.next();
                    let n = self.id()?;
                    self.want("(")?;
                    let mut ps = vec![];
                    while !self.is(")") { ps.push(self.id()?); if !self.eat(",") { break; } }
                    self.want(")")?;
                    let mut rs = vec![];
                    if self.eat("->") { loop { rs.push(self.id()?); if !self.eat(",") { break; } } }
                    return Ok(Y::Fun(n, ps, rs, self.yblock()?));
                }
                _ => {}
            }
            if matches!(self.at(1), T::P(p) if p == ":=" || p == ",") {
                let mut n = vec![self.id()?];
                while self.eat(",") { n.push(self.id()?); }
                self.want(":=")?;
                return Ok(Y::Set(n, self.yexpr()?));
            }
        }
        Ok(Y::Ex(self.yexpr()?))
    }
    fn yexpr(&mut self) -> Rs<Ye> {
        match self.next() {
            T::Num(n) => Ok(Ye::N(n)),
            T::Id(s) if s == "true" => Ok(Ye::N(BigUint::one())),
            T::Id(s) if s == "false" => Ok(Ye::N(BigUint::zero())),
            T::Id(mut s) => {
                while self.is(".") { self.next(); s += "."; s += &self.id()?; }
                if self.eat("(") {
                    let mut v = vec![];
                    while !self.is(")") { v.push(self.yexpr()?); if !self.eat(",") { break; } }
                    self.want(")")?;
                    Ok(Ye::Call(s, v))
                } else { Ok(Ye::Id(s)) }
            }
            t => bad(format!("unexpected {:?} in assembly", t)),
        }
    }
}

// ------------------------------------------------------------------ types and values
#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Uint(usize), Int(usize), BytesN(usize), Bool, Str, Struct(String, String), Fix(Box<Ty>, usize), Dyn(Box<Ty>), Lit, Tuple(Vec<Ty>), Void }
impl Ty {
    fn is_ref(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Fix(..) | Ty::Dyn(..) | Ty::Str) }
}
#[derive(Clone, Debug)]
struct Val { ty: Ty, v: BigInt, tup: Vec<Val> }
fn val(ty: Ty, v: BigInt) -> Val { Val { ty, v, tup: vec![] } }
fn uint(v: BigUint) -> Val { val(Ty::Uint(256), v.into()) }
fn boolean(b: bool) -> Val { val(Ty::Bool, BigInt::from(b as u8)) }
fn two(n: usize) -> BigInt { BigInt::one() << n }
fn word(v: &BigInt) -> BigUint {
    let m = two(256);
    let r = ((v % &m) + &m) % &m;
    r.to_biguint().unwrap()
}
fn wrap(v: BigInt, ty: &Ty) -> BigInt {
    match ty {
        Ty::Uint(n) => { let m = two(*n); ((v % &m) + &m) % &m }
        Ty::BytesN(n) => { let m = two(*n * 8); ((v % &m) + &m) % &m }
        Ty::Int(n) => { let m = two(*n); let r = ((v % &m) + &m) % &m; if r >= two(*n - 1) { r - m } else { r } }
        _ => v,
    }
}
fn lit_type(v: &BigInt) -> Rs<Ty> {
    if v.sign() == Sign::Minus { for n in 1..=32 { if -two(n * 8 - 1) <= *v { return Ok(Ty::Int(n * 8)); } } return bad("literal out of range"); }
    let n = ((v.bits() + 7) / 8).max(1);
    if n > 32 { return bad(format!("literal {} does not fit any type", v)); }
    Ok(Ty::Uint(n * 8))
}

enum Place { Local(usize), Mem(BigUint, Ty), Void }
enum Flow { Next, Break, Continue, Return(Option<Val>) }

#[derive(Clone)]
struct Local { name: String, v: Val, ty: Ty }
struct Frame { unit: usize, locals: Vec<Local>, fun: usize, level: usize, out: Option<Flow> }

pub struct Contract { units: Vec<Unit>, checked: bool }
pub struct Machine<'a> { c: &'a Contract, mem: Vec<u8>, steps: u64, ret: Vec<u8>, pub precompile_calls: u64, pub ops: u64, depth: usize, yfuns: Vec<HashMap<String, (Vec<String>, Vec<String>, Vec<Y>)>> }

pub const STEPS: u64 = 3_000_000;

impl Contract {
    pub fn parse(src: &str) -> Rs<Contract> {
        if src.contains("<%") { return bad("unfilled placeholder in the contract"); }
        let mut p = P { t: lex(src)?, i: 0 };
        let (units, pragma) = p.file()?;
        // arithmetic is checked from 0.8 on
        let ver = pragma.unwrap_or_default();
        let checked = ver.contains("0.8") || ver.contains("0 . 8");
        Ok(Contract { units, checked })
    }
    /// the public functions and their parameter types, checked for static errors
    pub fn entry(&self, name: &str) -> Rs<(usize, usize)> {
        let mut found = None;
        for (u, unit) in self.units.iter().enumerate() {
            if unit.kind != "contract" { continue; }
            for (f, fun) in unit.funs.iter().enumerate() {
                if fun.name == name && (fun.vis == "public" || fun.vis == "external") && fun.body.is_some() {
                    if found.is_some() { return unsup("overloaded entry point"); }
                    found = Some((u, f));
                }
            }
        }
        match found { Some(f) => Ok(f), None => bad(format!("no public function {}", name)) }
    }
    /// every declared type must exist, arrays must not be empty
    pub fn check_types(&self) -> Rs<()> {
        let m = Machine::new(self);
        for (u, unit) in self.units.iter().enumerate() {
            for f in unit.structs.values() { for (t, _) in f { m.ty(u, t)?; } }
            for (t, _, _, _) in unit.consts.iter() { if *t != Tn::Map { m.ty(u, t)?; } }
            for f in unit.funs.iter() { for (t, _) in f.params.iter().chain(f.rets.iter()) { m.ty(u, t)?; } }
        }
        Ok(())
    }
    pub fn entry_params(&self, e: (usize, usize)) -> Rs<Vec<Ty>> {
        let m = Machine::new(self);
        self.units[e.0].funs[e.1].params.iter().map(|(t, _)| m.ty(e.0, t)).collect()
    }
}

impl<'a> Machine<'a> {
    pub fn new(c: &'a Contract) -> Self {
        let mut m = Machine { c, mem: vec![0; 0x80], steps: 0, ret: vec![], precompile_calls: 0, ops: 0, depth: 0, yfuns: vec![] };
        m.store(&BigUint::from(0x40u32), &BigUint::from(0x80u32)).unwrap();
        m
    }
    fn tick(&mut self) -> Rs<()> { self.steps += 1; self.ops += 1; if self.steps > STEPS { Err(Stop::Gas) } else { Ok(()) } }
    // ---- memory
    fn ensure_mem(&mut self, a: &BigUint, n: usize) -> Rs<usize> {
        match a.to_usize() {
            Some(x) if x + n <= 1 << 26 => { if self.mem.len() < x + n { self.mem.resize((x + n + 31) / 32 * 32, 0); } Ok(x) }
            _ => Err(Stop::Gas),
        }
    }
    fn load(&mut self, a: &BigUint) -> Rs<BigUint> { let x = self.ensure_mem(a, 32)?; Ok(BigUint::from_bytes_be(&self.mem[x..x + 32])) }
    fn store(&mut self, a: &BigUint, v: &BigUint) -> Rs<()> { let x = self.ensure_mem(a, 32)?; self.mem[x..x + 32].copy_from_slice(&be_bytes(v, 32)); Ok(()) }
    fn alloc(&mut self, n: usize) -> Rs<BigUint> {
        let f = BigUint::from(0x40u32);
        let p = self.load(&f)?;
        let e = &p + BigUint::from(n as u64);
        self.ensure_mem(&p, n)?;
        self.store(&f, &e)?;
        // fresh solidity memory is zero
        let x = p.to_usize().unwrap();
        for b in &mut self.mem[x..x + n] { *b = 0; }
        Ok(p)
    }
    // ---- types
    fn const_len(&self, u: usize, x: &X) -> Rs<usize> {
        let mut m = Machine { c: self.c, mem: vec![0; 0x80], steps: 0, ret: vec![], precompile_calls: 0, ops: 0, depth: 0, yfuns: vec![] };
        let mut f = Frame { unit: u, locals: vec![], fun: 0, level: 0, out: None };
        let v = m.eval(&mut f, x)?;
        match v.v.to_usize() { Some(n) => Ok(n), None => bad("array length") }
    }
    fn find_struct(&self, u: usize, path: &[String]) -> Option<(String, String)> {
        if path.len() == 1 {
            let mut us = vec![u];
            us.extend(self.bases(u));
            for k in us { if self.c.units[k].structs.contains_key(&path[0]) { return Some((self.c.units[k].name.clone(), path[0].clone())); } }
            None
        } else {
            let k = self.c.units.iter().position(|x| x.name == path[0])?;
            if self.c.units[k].structs.contains_key(&path[1]) { Some((path[0].clone(), path[1].clone())) } else { None }
        }
    }
    fn bases(&self, u: usize) -> Vec<usize> {
        let mut v = vec![];
        for b in self.c.units[u].bases.iter() { if let Some(k) = self.c.units.iter().position(|x| x.name == *b) { v.push(k); v.extend(self.bases(k)); } }
        v
    }
    fn ty(&self, u: usize, t: &Tn) -> Rs<Ty> {
        match t {
            Tn::Map => unsup("mapping"),
            Tn::Arr(b, None) => Ok(Ty::Dyn(Box::new(self.ty(u, b)?))),
            Tn::Arr(b, Some(n)) => { let n = self.const_len(u, n)?; if n == 0 { return bad("Array with zero length specified"); } Ok(Ty::Fix(Box::new(self.ty(u, b)?), n)) }
            Tn::Name(p) => {
                if p.len() == 1 {
                    let s = &p[0];
                    match &s[..] { "bool" => return Ok(Ty::Bool), "string" | "bytes" => return Ok(Ty::Str), "uint" => return Ok(Ty::Uint(256)), "int" => return Ok(Ty::Int(256)), "address" => return Ok(Ty::Uint(160)), "byte" => return Ok(Ty::BytesN(1)), _ => {} }
                    if elementary(s) {
                        let num = |pre: &str| s[pre.len()..].parse::<usize>().unwrap_or(0);
                        if s.starts_with("uint") { let n = num("uint"); if n == 0 || n > 256 || n % 8 != 0 { return bad(format!("type {}", s)); } return Ok(Ty::Uint(n)); }
                        if s.starts_with("int") { let n = num("int"); if n == 0 || n > 256 || n % 8 != 0 { return bad(format!("type {}", s)); } return Ok(Ty::Int(n)); }
                        if s.starts_with("bytes") { let n = num("bytes"); if n == 0 || n > 32 { return bad(format!("type {}", s)); } return Ok(Ty::BytesN(n)); }
                    }
                }
                match self.find_struct(u, p) { Some((a, b)) => Ok(Ty::Struct(a, b)), None => bad(format!("unknown type {}", p.join("."))) }
            }
        }
    }
    fn fields(&self, t: &Ty) -> Rs<Vec<(Ty, String)>> {
        if let Ty::Struct(a, b) = t {
            let u = self.c.units.iter().position(|x| x.name == *a).unwrap();
            self.c.units[u].structs[b].iter().map(|(t, n)| Ok((self.ty(u, t)?, n.clone()))).collect()
        } else { bad("not a structure") }
    }
    /// a fresh zero value
    fn zero(&mut self, t: &Ty) -> Rs<Val> {
        Ok(match t {
            Ty::Struct(..) => {
                let f = self.fields(t)?;
                let p = self.alloc(32 * f.len())?;
                for (i, (ft, _)) in f.iter().enumerate() { let z = self.zero(ft)?; self.store(&(&p + BigUint::from(32 * i)), &word(&z.v))?; }
                val(t.clone(), p.into())
            }
            Ty::Fix(b, n) => {
                let p = self.alloc(32 * n)?;
                if b.is_ref() { for i in 0..*n { self.tick()?; let z = self.zero(b)?; self.store(&(&p + BigUint::from(32 * i)), &word(&z.v))?; } }
                val(t.clone(), p.into())
            }
            // an empty dynamic array points at the zero slot
            Ty::Dyn(_) | Ty::Str => val(t.clone(), BigInt::from(0x60)),
            Ty::Tuple(v) => { let mut o = vec![]; for x in v { o.push(self.zero(x)?); } Val { ty: t.clone(), v: BigInt::zero(), tup: o } }
            _ => val(t.clone(), BigInt::zero()),
        })
    }
    /// implicit conversion
    fn conv(&self, v: Val, t: &Ty) -> Rs<Val> {
        if v.ty == *t { return Ok(v); }
        match (&v.ty, t) {
            (Ty::Lit, Ty::Uint(n)) => if v.v.sign() != Sign::Minus && v.v < two(*n) { Ok(val(t.clone(), v.v)) } else { bad(format!("literal {} is not a uint{}", v.v, n)) },
            (Ty::Lit, Ty::Int(n)) => if v.v >= -two(*n - 1) && v.v < two(*n - 1) { Ok(val(t.clone(), v.v)) } else { bad("literal range") },
            (Ty::Lit, Ty::BytesN(_)) => Ok(val(t.clone(), v.v)),
            (Ty::Uint(a), Ty::Uint(b)) if a <= b => Ok(val(t.clone(), v.v)),
            (Ty::Int(a), Ty::Int(b)) if a <= b => Ok(val(t.clone(), v.v)),
            (Ty::Uint(a), Ty::Int(b)) if a < b => Ok(val(t.clone(), v.v)),
            (Ty::Tuple(a), Ty::Tuple(b)) if a.len() == b.len() => { let mut o = vec![]; for (x, y) in v.tup.iter().zip(b) { o.push(self.conv(x.clone(), y)?); } Ok(Val { ty: t.clone(), v: BigInt::zero(), tup: o }) }
            (a, b) => bad(format!("no implicit conversion from {:?} to {:?}", a, b)),
        }
    }
    fn mobile(&self, v: Val) -> Rs<Val> { if v.ty == Ty::Lit { let t = lit_type(&v.v)?; Ok(val(t, v.v)) } else { Ok(v) } }
    fn common(&self, a: &Ty, b: &Ty) -> Rs<Ty> {
        if a == b { return Ok(a.clone()); }
        match (a, b) {
            (Ty::Uint(x), Ty::Uint(y)) => Ok(Ty::Uint(*x.max(y))),
            (Ty::Int(x), Ty::Int(y)) => Ok(Ty::Int(*x.max(y))),
            (Ty::Uint(x), Ty::Int(y)) | (Ty::Int(y), Ty::Uint(x)) if x < y => Ok(Ty::Int(*y)),
            _ => bad(format!("no common type of {:?} and {:?}", a, b)),
        }
    }
    // ---- names
    fn constant(&mut self, u: usize, n: &str) -> Rs<Option<Val>> {
        let mut us = vec![u];
        us.extend(self.bases(u));
        for k in us {
            let c = self.c;
            if let Some((t, _, e, cst)) = c.units[k].consts.iter().find(|x| x.1 == n) {
                if !*cst { return unsup(format!("state variable {}", n)); }
                let t = self.ty(k, t)?;
                let mut f = Frame { unit: k, locals: vec![], fun: 0, level: 0, out: None };
                return match e { Some(e) => { let v = self.eval(&mut f, e)?; Ok(Some(self.conv(v, &t)?)) } None => bad("constant without value") };
            }
        }
        Ok(None)
    }
    fn find_fun(&self, u: usize, n: &str, nargs: usize) -> Rs<Option<(usize, usize)>> {
        let mut us = vec![u];
        us.extend(self.bases(u));
        for k in us {
            let v: Vec<usize> = self.c.units[k].funs.iter().enumerate().filter(|(_, f)| f.name == n && f.params.len() == nargs).map(|x| x.0).collect();
            if v.len() > 1 { return unsup("overloaded function"); }
            if v.len() == 1 { return Ok(Some((k, v[0]))); }
            if self.c.units[k].funs.iter().any(|f| f.name == n) { return bad(format!("wrong number of arguments for {}", n)); }
        }
        Ok(None)
    }
    fn call(&mut self, k: (usize, usize), args: Vec<Val>) -> Rs<Val> {
        self.tick()?;
        self.depth += 1;
        if self.depth > 200 { return Err(Stop::Gas); }
        let c = self.c;
        let fun = &c.units[k.0].funs[k.1];
        let mut f = Frame { unit: k.0, locals: vec![], fun: k.1, level: 0, out: None };
        if args.len() != fun.params.len() { return bad(format!("wrong number of arguments for {}", fun.name)); }
        for (a, (t, n)) in args.into_iter().zip(fun.params.iter()) {
            let t = self.ty(k.0, t)?;
            let v = self.conv(a, &t)?;
            f.locals.push(Local { name: n.clone(), v, ty: t });
        }
        let mut rt = vec![];
        let base = f.locals.len();
        for (t, n) in fun.rets.iter() {
            let t = self.ty(k.0, t)?;
            let v = self.zero(&t)?;
            f.locals.push(Local { name: n.clone(), v, ty: t.clone() });
            rt.push(t);
        }
        self.layer(&mut f)?;
        let fl = f.out.take().unwrap_or(Flow::Next);
        self.depth -= 1;
        if rt.is_empty() { return Ok(val(Ty::Void, BigInt::zero())); }
        let want = if rt.len() == 1 { rt[0].clone() } else { Ty::Tuple(rt.clone()) };
        match fl {
            Flow::Return(Some(v)) => self.conv(v, &want),
            _ => {
                if rt.len() == 1 { Ok(f.locals[base].v.clone()) }
                else { Ok(Val { ty: want, v: BigInt::zero(), tup: f.locals[base..base + rt.len()].iter().map(|l| l.v.clone()).collect() }) }
            }
        }
    }
    // the modifiers of a function wrap its body, outermost first
    fn layer(&mut self, f: &mut Frame) -> Rs<()> {
        let c = self.c;
        let fun = &c.units[f.unit].funs[f.fun];
        if f.level == fun.mods.len() {
            let body = match &fun.body { Some(b) => b, None => return bad("function without body") };
            let fl = self.block(f, body)?;
            f.out = Some(fl);
            return Ok(());
        }
        let (name, args) = &fun.mods[f.level];
        let mut us = vec![f.unit];
        us.extend(self.bases(f.unit));
        let m = match us.iter().filter_map(|&k| c.units[k].mods.iter().find(|m| m.name == *name)).next() { Some(m) => m, None => return bad(format!("unknown modifier {}", name)) };
        if m.params.len() != args.len() { return bad(format!("wrong number of arguments for {}", name)); }
        let n = f.locals.len();
        let mut vs = vec![];
        for (a, (t, n)) in args.iter().zip(m.params.iter()) {
            let t = self.ty(f.unit, t)?;
            let v = self.eval(f, a)?;
            let v = self.conv(v, &t)?;
            vs.push(Local { name: n.clone(), v, ty: t });
        }
        f.locals.extend(vs);
        f.level += 1;
        self.block(f, m.body.as_ref().unwrap())?;
        f.level -= 1;
        f.locals.truncate(n);
        Ok(())
    }
    // ---- statements
    fn block(&mut self, f: &mut Frame, b: &[St]) -> Rs<Flow> {
        let n = f.locals.len();
        for s in b {
            match self.stmt(f, s)? { Flow::Next => {} x => { f.locals.truncate(n); return Ok(x); } }
        }
        f.locals.truncate(n);
        Ok(Flow::Next)
    }
    fn scoped(&mut self, f: &mut Frame, s: &St) -> Rs<Flow> { let n = f.locals.len(); let r = self.stmt(f, s); f.locals.truncate(n); r }
    fn cond(&mut self, f: &mut Frame, x: &X) -> Rs<bool> { let v = self.eval(f, x)?; if v.ty != Ty::Bool { return bad("condition is not a bool"); } Ok(!v.v.is_zero()) }
    fn stmt(&mut self, f: &mut Frame, s: &St) -> Rs<Flow> {
        self.tick()?;
        match s {
            St::Nop => {}
            St::Hole => self.layer(f)?,
            St::Block(b) => return self.block(f, b),
            St::Decl(t, n, e) => {
                let t = self.ty(f.unit, t)?;
                let v = match e { Some(e) => { let v = self.eval(f, e)?; self.conv(v, &t)? } None => self.zero(&t)? };
                f.locals.push(Local { name: n.clone(), v, ty: t });
            }
            St::TupDecl(d, e) => {
                let v = self.eval(f, e)?;
                if v.tup.len() != d.len() { return bad("tuple size"); }
                for (x, d) in v.tup.into_iter().zip(d) { if let Some((t, n)) = d { let t = self.ty(f.unit, t)?; let v = self.conv(x, &t)?; f.locals.push(Local { name: n.clone(), v, ty: t }); } }
            }
            St::Ex(x) => { self.eval(f, x)?; }
            St::If(c, a, b) => {
                if self.cond(f, c)? { return self.scoped(f, a); } else if let Some(b) = b { return self.scoped(f, b); }
            }
            St::While(c, b) => {
                while self.cond(f, c)? { self.tick()?; match self.scoped(f, b)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} } }
            }
            St::DoWhile(b, c) => {
                loop { self.tick()?; match self.scoped(f, b)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} } if !self.cond(f, c)? { break; } }
            }
            St::For(i, c, p, b) => {
                let n = f.locals.len();
                if let Some(i) = i { self.stmt(f, i)?; }
                loop {
                    self.tick()?;
                    if let Some(c) = c { if !self.cond(f, c)? { break; } }
                    match self.scoped(f, b)? { Flow::Break => break, Flow::Return(v) => { f.locals.truncate(n); return Ok(Flow::Return(v)); } _ => {} }
                    if let Some(p) = p { self.eval(f, p)?; }
                }
                f.locals.truncate(n);
            }
            St::Ret(e) => { let v = match e { Some(e) => Some(self.eval(f, e)?), None => None }; return Ok(Flow::Return(v)); }
            St::Break => return Ok(Flow::Break),
            St::Continue => return Ok(Flow::Continue),
            St::Asm(b) => {
                let mut ys = vec![];
                self.yfuns.push(HashMap::new());
                self.yblock(f, &mut ys, b)?;
                self.yfuns.pop();
            }
        }
        Ok(Flow::Next)
    }
    // ---- expressions
    fn place(&mut self, f: &mut Frame, x: &X) -> Rs<Place> {
        match x {
            X::Id(n) => match f.locals.iter().rposition(|l| l.name == *n) { Some(i) => Ok(Place::Local(i)), None => unsup(format!("assignment to {}", n)) },
            X::Mem(b, n) => {
                let v = self.eval(f, b)?;
                let fs = self.fields(&v.ty)?;
                match fs.iter().position(|x| x.1 == *n) { Some(i) => Ok(Place::Mem(word(&v.v) + BigUint::from(32 * i), fs[i].0.clone())), None => bad(format!("no member {}", n)) }
            }
            X::Idx(b, i) => {
                let v = self.eval(f, b)?;
                let k = self.eval(f, i)?;
                let k = self.mobile(k)?;
                match &k.ty { Ty::Uint(_) => {} t => return bad(format!("index of type {:?}", t)) }
                match &v.ty {
                    Ty::Fix(t, n) => {
                        if k.v >= BigInt::from(*n) {
                            if let X::Num(_) = **i { return bad("constant index out of bounds"); }
                            return revert("index out of bounds");
                        }
                        Ok(Place::Mem(word(&v.v) + word(&k.v) * 32u32, (**t).clone()))
                    }
                    Ty::Dyn(t) => {
                        let n = self.load(&word(&v.v))?;
                        if word(&k.v) >= n { return revert("index out of bounds"); }
                        Ok(Place::Mem(word(&v.v) + 32u32 + word(&k.v) * 32u32, (**t).clone()))
                    }
                    t => bad(format!("indexing {:?}", t)),
                }
            }
            _ => unsup(format!("assignment to {:?}", x)),
        }
    }
    fn get(&mut self, f: &Frame, p: &Place) -> Rs<Val> {
        match p {
            Place::Local(i) => Ok(f.locals[*i].v.clone()),
            Place::Mem(a, t) => { let w = self.load(a)?; Ok(val(t.clone(), wrap(w.into(), t))) }
            Place::Void => bad("void"),
        }
    }
    fn set(&mut self, f: &mut Frame, p: &Place, v: Val) -> Rs<Val> {
        match p {
            Place::Local(i) => { let t = f.locals[*i].ty.clone(); let v = self.conv(v, &t)?; f.locals[*i].v = v.clone(); Ok(v) }
            Place::Mem(a, t) => { let v = self.conv(v, t)?; self.store(a, &word(&v.v))?; Ok(v) }
            Place::Void => Ok(v),
        }
    }
    fn arith(&self, v: BigInt, t: &Ty) -> Rs<Val> {
        let w = wrap(v.clone(), t);
        if self.c.checked && w != v { return revert("arithmetic overflow"); }
        Ok(val(t.clone(), w))
    }
    fn bin(&mut self, o: &str, a: Val, b: Val) -> Rs<Val> {
        if a.ty == Ty::Lit && b.ty == Ty::Lit {
            let (x, y) = (&a.v, &b.v);
            let r = match o {
                "+" => x + y, "-" => x - y, "*" => x * y,
                "/" => { if y.is_zero() { return bad("division by zero"); } if !(x % y).is_zero() { return unsup("rational literal"); } x / y }
                "%" => { if y.is_zero() { return bad("modulo zero"); } x % y }
                "**" => { let e = match y.to_usize() { Some(e) if e <= 4096 => e, _ => return bad("literal power") }; num::pow(x.clone(), e) }
                "<<" => x << y.to_usize().unwrap_or(0), ">>" => x >> y.to_usize().unwrap_or(0),
                "==" => return Ok(boolean(x == y)), "!=" => return Ok(boolean(x != y)), "<" => return Ok(boolean(x < y)), ">" => return Ok(boolean(x > y)), "<=" => return Ok(boolean(x <= y)), ">=" => return Ok(boolean(x >= y)),
                "&" => word(x).bitand_(&word(y)), "|" => word(x).bitor_(&word(y)), "^" => word(x).bitxor_(&word(y)),
                _ => return bad(format!("operator {} on literals", o)),
            };
            return Ok(val(Ty::Lit, r));
        }
        if ["<<", ">>", "**"].contains(&o) {
            let a = self.mobile(a)?;
            let b = self.mobile(b)?;
            let n = match b.v.to_usize() { Some(n) if n <= 4096 => n, _ => { return if o == "**" { unsup("huge power") } else { Ok(val(a.ty, BigInt::zero())) } } };
            return match o { "<<" => Ok(val(a.ty.clone(), wrap(a.v << n, &a.ty))), ">>" => Ok(val(a.ty.clone(), a.v >> n)), _ => { let t = a.ty.clone(); self.arith(num::pow(a.v, n), &t) } };
        }
        // a literal takes part with the other operand's type if it fits
        let (a, b) = match (&a.ty, &b.ty) {
            (Ty::Lit, t) => { let t = t.clone(); let x = match self.conv(a.clone(), &t) { Ok(x) => x, Err(_) => self.mobile(a)? }; (x, b) }
            (t, Ty::Lit) => { let t = t.clone(); let y = match self.conv(b.clone(), &t) { Ok(y) => y, Err(_) => self.mobile(b)? }; (a, y) }
            _ => (a, b),
        };
        if a.ty == Ty::Bool && b.ty == Ty::Bool { return match o { "==" => Ok(boolean(a.v == b.v)), "!=" => Ok(boolean(a.v != b.v)), _ => bad("operator on bool") }; }
        let t = self.common(&a.ty, &b.ty)?;
        match &t { Ty::Uint(_) | Ty::Int(_) => {} Ty::BytesN(_) if ["==", "!=", "&", "|", "^", "<", ">", "<=", ">="].contains(&o) => {} _ => return bad(format!("operator {} on {:?}", o, t)) }
        let (x, y) = (a.v, b.v);
        match o {
            "+" => self.arith(x + y, &t), "-" => self.arith(x - y, &t), "*" => self.arith(x * y, &t),
            "/" => if y.is_zero() { revert("division by zero") } else { self.arith(x / y, &t) },
            "%" => if y.is_zero() { revert("modulo by zero") } else { self.arith(x % y, &t) },
            "==" => Ok(boolean(x == y)), "!=" => Ok(boolean(x != y)), "<" => Ok(boolean(x < y)), ">" => Ok(boolean(x > y)), "<=" => Ok(boolean(x <= y)), ">=" => Ok(boolean(x >= y)),
            "&" => Ok(val(t.clone(), wrap(word(&x).bitand_(&word(&y)), &t))), "|" => Ok(val(t.clone(), wrap(word(&x).bitor_(&word(&y)), &t))), "^" => Ok(val(t.clone(), wrap(word(&x).bitxor_(&word(&y)), &t))),
            _ => bad(format!("operator {}", o)),
        }
    }
    fn cast(&mut self, t: Ty, v: Val) -> Rs<Val> {
        match (&t, &v.ty) {
            (Ty::Uint(_), Ty::Lit) => self.conv(v, &t),
            (Ty::Uint(_), Ty::Uint(_)) | (Ty::Uint(_), Ty::Int(_)) | (Ty::Int(_), Ty::Uint(_)) | (Ty::Int(_), Ty::Int(_)) | (Ty::Int(_), Ty::Lit) | (Ty::BytesN(_), _) | (Ty::Uint(_), Ty::BytesN(_)) => { let w = wrap(v.v, &t); Ok(val(t, w)) }
            (a, b) if a == b => Ok(v),
            (a, b) => bad(format!("no conversion from {:?} to {:?}", b, a)),
        }
    }
    fn make(&mut self, t: &Ty, args: Vec<Val>) -> Rs<Val> {
        let fs = self.fields(t)?;
        if fs.len() != args.len() { return bad("wrong number of structure members"); }
        let p = self.alloc(32 * fs.len())?;
        for (i, (a, (ft, _))) in args.into_iter().zip(fs.iter()).enumerate() { let v = self.conv(a, ft)?; self.store(&(&p + BigUint::from(32 * i)), &word(&v.v))?; }
        Ok(val(t.clone(), p.into()))
    }
    fn eval(&mut self, f: &mut Frame, x: &X) -> Rs<Val> {
        self.tick()?;
        match x {
            X::Num(n) => Ok(val(Ty::Lit, n.clone().into())),
            X::Str(_) => Ok(val(Ty::Str, BigInt::from(0x60))),
            X::Bool(b) => Ok(boolean(*b)),
            X::Id(n) => {
                if let Some(l) = f.locals.iter().rev().find(|l| l.name == *n) { return Ok(l.v.clone()); }
                match self.constant(f.unit, n)? { Some(v) => Ok(v), None => bad(format!("unknown name {}", n)) }
            }
            X::Ty(_) => bad("type used as a value"),
            X::New(_) => bad("new without arguments"),
            X::Tup(v) => { let mut o = vec![]; for e in v { match e { Some(e) => o.push(self.eval(f, e)?), None => return bad("empty tuple element") } } Ok(Val { ty: Ty::Tuple(o.iter().map(|x| x.ty.clone()).collect()), v: BigInt::zero(), tup: o }) }
            X::Arr(v) => {
                let mut o = vec![];
                for e in v { let a = self.eval(f, e)?; o.push(self.mobile(a)?); }
                let mut t = o[0].ty.clone();
                for a in o[1..].iter() { t = self.common(&t, &a.ty)?; }
                let p = self.alloc(32 * o.len())?;
                let n = o.len();
                for (i, a) in o.into_iter().enumerate() { let a = self.conv(a, &t)?; self.store(&(&p + BigUint::from(32 * i)), &word(&a.v))?; }
                Ok(val(Ty::Fix(Box::new(t), n), p.into()))
            }
            X::Mem(b, n) => {
                // library or contract constant
                if let X::Id(l) = &**b {
                    if !f.locals.iter().any(|x| x.name == *l) {
                        if let Some(k) = self.c.units.iter().position(|u| u.name == *l) { return match self.constant(k, n)? { Some(v) => Ok(v), None => bad(format!("unknown {}.{}", l, n)) }; }
                    }
                }
                if let X::Call(t, a) = &**b {
                    if let (X::Id(k), [X::Ty(t)]) = (&**t, &a[..]) {
                        if k == "type" {
                            let t = self.ty(f.unit, t)?;
                            return match (&t, &n[..]) { (Ty::Uint(w), "max") => Ok(val(t.clone(), two(*w) - 1)), (Ty::Uint(_), "min") => Ok(val(t.clone(), BigInt::zero())), _ => unsup("type()") };
                        }
                    }
                }
                let v = self.eval(f, b)?;
                if n == "length" {
                    match &v.ty { Ty::Fix(_, n) => return Ok(uint(BigUint::from(*n))), Ty::Dyn(_) => { let w = self.load(&word(&v.v))?; return Ok(uint(w)); } _ => {} }
                }
                let fs = self.fields(&v.ty)?;
                match fs.iter().position(|x| x.1 == *n) {
                    Some(i) => { let w = self.load(&(word(&v.v) + BigUint::from(32 * i)))?; let t = fs[i].0.clone(); Ok(val(t.clone(), wrap(w.into(), &t))) }
                    None => bad(format!("no member {}", n)),
                }
            }
            X::Idx(..) => { let p = self.place(f, x)?; self.get(f, &p) }
            X::Un(o, e) => match &o[..] {
                "!" => { let v = self.eval(f, e)?; if v.ty != Ty::Bool { return bad("! on a number"); } Ok(boolean(v.v.is_zero())) }
                "-" => { let v = self.eval(f, e)?; match &v.ty { Ty::Lit => Ok(val(Ty::Lit, -v.v)), t => { let t = t.clone(); self.arith(-v.v, &t) } } }
                "+" => self.eval(f, e),
                "~" => { let v = self.eval(f, e)?; let v = self.mobile(v)?; let t = v.ty.clone(); Ok(val(t.clone(), wrap(-v.v - 1, &t))) }
                "++" | "--" => { let p = self.place(f, e)?; let v = self.get(f, &p)?; let t = v.ty.clone(); let d = if o == "++" { 1 } else { -1 }; let n = self.arith(v.v + d, &t)?; self.set(f, &p, n) }
                "delete" => { let p = self.place(f, e)?; let v = self.get(f, &p)?; let z = self.zero(&v.ty)?; self.set(f, &p, z) }
                _ => unsup(format!("operator {}", o)),
            },
            X::Post(o, e) => { let p = self.place(f, e)?; let v = self.get(f, &p)?; let t = v.ty.clone(); let d = if o == "++" { 1 } else { -1 }; let n = self.arith(v.v.clone() + d, &t)?; self.set(f, &p, n)?; Ok(v) }
            X::Bin(o, a, b) => {
                if o == "&&" { return Ok(boolean(self.cond(f, a)? && self.cond(f, b)?)); }
                if o == "||" { return Ok(boolean(self.cond(f, a)? || self.cond(f, b)?)); }
                let x = self.eval(f, a)?;
                let y = self.eval(f, b)?;
                self.bin(o, x, y)
            }
            X::Asg(o, l, r) => {
                let v = self.eval(f, r)?;
                if let X::Tup(ls) = &**l {
                    if v.tup.len() != ls.len() { return bad("tuple size"); }
                    for (l, v) in ls.iter().zip(v.tup.iter()) { if let Some(l) = l { let p = self.place(f, l)?; self.set(f, &p, v.clone())?; } }
                    return Ok(v);
                }
                let p = self.place(f, l)?;
                let v = if o.is_empty() { v } else { let a = self.get(f, &p)?; let t = a.ty.clone(); let r = self.bin(o, a, v)?; self.conv(r, &t)? };
                self.set(f, &p, v)
            }
            X::Cond(c, a, b) => { let e = if self.cond(f, c)? { a } else { b }; let v = self.eval(f, e)?; self.mobile(v) }
            X::NamedCall(e, a) => {
                let p = match &**e { X::Id(n) => vec![n.clone()], X::Mem(b, n) => match &**b { X::Id(m) => vec![m.clone(), n.clone()], _ => return unsup("call") }, _ => return unsup("call") };
                match self.find_struct(f.unit, &p) {
                    Some((x, y)) => {
                        let t = Ty::Struct(x, y);
                        let fs = self.fields(&t)?;
                        let mut vs: Vec<Option<Val>> = fs.iter().map(|_| None).collect();
                        for (n, x) in a { let v = self.eval(f, x)?; match fs.iter().position(|z| z.1 == *n) { Some(i) => vs[i] = Some(v), None => return bad("unknown member") } }
                        let vs: Option<Vec<Val>> = vs.into_iter().collect();
                        match vs { Some(v) => self.make(&t, v), None => bad("missing member") }
                    }
                    None => unsup("named arguments"),
                }
            }
            X::Call(e, a) => self.call_expr(f, e, a),
        }
    }
    fn call_expr(&mut self, f: &mut Frame, e: &X, a: &[X]) -> Rs<Val> {
        if let X::Ty(t) = e { let t = self.ty(f.unit, t)?; if a.len() != 1 { return bad("conversion"); } let v = self.eval(f, &a[0])?; return self.cast(t, v); }
        if let X::New(t) = e {
            let t = self.ty(f.unit, t)?;
            let n = self.eval(f, &a[0])?;
            if let Ty::Dyn(b) = &t {
                let n = match n.v.to_usize() { Some(n) if n < 1 << 18 => n, _ => return Err(Stop::Gas) };
                let p = self.alloc(32 * (n + 1))?;
                self.store(&p, &BigUint::from(n))?;
                if b.is_ref() { for i in 0..n { let z = self.zero(b)?; self.store(&(&p + BigUint::from(32 * (i + 1))), &word(&z.v))?; } }
                return Ok(val(t, p.into()));
            }
            return unsup("new");
        }
        let mut args = |m: &mut Self, f: &mut Frame| -> Rs<Vec<Val>> { let mut v = vec![]; for x in a { v.push(m.eval(f, x)?); } Ok(v) };
        match e {
            X::Id(n) => {
                match &n[..] {
                    "require" | "assert" => { let c = self.cond(f, &a[0])?; return if c { Ok(val(Ty::Void, BigInt::zero())) } else { revert(n.clone()) }; }
                    "revert" => return revert("revert"),
                    "gasleft" => return Ok(uint(BigUint::from(20_000_000u32))),
                    "addmod" | "mulmod" => {
                        let v = args(self, f)?;
                        let w: Vec<BigUint> = v.iter().map(|x| word(&x.v)).collect();
                        if w[2].is_zero() { return revert("modulo zero"); }
                        return Ok(uint(if n == "addmod" { (&w[0] + &w[1]) % &w[2] } else { (&w[0] * &w[1]) % &w[2] }));
                    }
                    _ => {}
                }
                if let Some((x, y)) = self.find_struct(f.unit, &[n.clone()]) { let v = args(self, f)?; return self.make(&Ty::Struct(x, y), v); }
                match self.find_fun(f.unit, n, a.len())? { Some(k) => { let v = args(self, f)?; self.call(k, v) } None => bad(format!("unknown function {}", n)) }
            }
            X::Mem(b, n) => {
                if let X::Id(l) = &**b {
                    if !f.locals.iter().any(|x| x.name == *l) {
                        if let Some(k) = self.c.units.iter().position(|u| u.name == *l) {
                            if let Some((x, y)) = self.find_struct(f.unit, &[l.clone(), n.clone()]) { let v = args(self, f)?; return self.make(&Ty::Struct(x, y), v); }
                            let fk = match self.find_fun(k, n, a.len())? { Some(x) => x, None => return bad(format!("unknown function {}.{}", l, n)) };
                            if self.c.units[fk.0].funs[fk.1].vis == "private" && fk.0 != f.unit { return bad("private function"); }
                            let v = args(self, f)?;
                            return self.call(fk, v);
                        }
                    }
                    if l == "this" { return unsup("this"); }
                }
                let v = self.eval(f, b)?;
                let mut us = vec![f.unit];
                us.extend(self.bases(f.unit));
                let libs: Vec<String> = us.iter().flat_map(|u| self.c.units[*u].using.clone()).collect();
                for l in libs {
                    if let Some(k) = self.c.units.iter().position(|u| u.name == l) {
                        if let Ok(Some(fk)) = self.find_fun(k, n, a.len() + 1) { let mut w = vec![v]; w.extend(args(self, f)?); return self.call(fk, w); }
                    }
                }
                unsup(format!("call of member {}", n))
            }
            _ => unsup(format!("call of {:?}", e)),
        }
    }
    // ---- assembly
    fn yget(&self, f: &Frame, ys: &[(String, BigUint)], n: &str) -> Rs<BigUint> {
        if let Some(x) = ys.iter().rev().find(|x| x.0 == n) { return Ok(x.1.clone()); }
        if let Some(l) = f.locals.iter().rev().find(|l| l.name == n) { return Ok(word(&l.v.v)); }
        let mut m = Machine::new(self.c);
        match m.constant(f.unit, n)? { Some(v) => Ok(word(&v.v)), None => bad(format!("unknown name {} in assembly", n)) }
    }
    fn yset(&mut self, f: &mut Frame, ys: &mut Vec<(String, BigUint)>, n: &str, v: BigUint) -> Rs<()> {
        if let Some(x) = ys.iter_mut().rev().find(|x| x.0 == n) { x.1 = v; return Ok(()); }
        if let Some(l) = f.locals.iter_mut().rev().find(|l| l.name == n) {
            l.v.v = match &l.ty { Ty::Bool => BigInt::from(!v.is_zero() as u8), t => wrap(v.into(), t) };
            return Ok(());
        }
        bad(format!("unknown name {} in assembly", n))
    }
    fn yblock(&mut self, f: &mut Frame, ys: &mut Vec<(String, BigUint)>, b: &[Y]) -> Rs<Flow> {
        let n = ys.len();
        for s in b { if let Y::Fun(n, p, r, b) = s { self.yfuns.last_mut().unwrap().insert(n.clone(), (p.clone(), r.clone(), b.clone())); } }
        for s in b { match self.ystmt(f, ys, s)? { Flow::Next => {} x => { ys.truncate(n); return Ok(x); } } }
        ys.truncate(n);
        Ok(Flow::Next)
    }
    fn ystmt(&mut self, f: &mut Frame, ys: &mut Vec<(String, BigUint)>, s: &Y) -> Rs<Flow> {
        self.tick()?;
        match s {
            Y::Fun(..) => {}
            Y::Let(n, e) => {
                let v = match e { Some(e) => self.yev(f, ys, e)?, None => n.iter().map(|_| BigUint::zero()).collect() };
                if v.len() != n.len() { return bad("assembly assignment"); }
                for (n, v) in n.iter().zip(v) { ys.push((n.clone(), v)); }
            }
            Y::Set(n, e) => { let v = self.yev(f, ys, e)?; if v.len() != n.len() { return bad("assembly assignment"); } for (n, v) in n.iter().zip(v) { self.yset(f, ys, n, v)?; } }
            Y::Ex(e) => { if !self.yev(f, ys, e)?.is_empty() { return bad("unused value in assembly"); } }
            Y::If(e, b) => { if !self.y1(f, ys, e)?.is_zero() { return self.yblock(f, ys, b); } }
            Y::Switch(e, cs, d) => {
                let v = self.y1(f, ys, e)?;
                for (k, b) in cs { if *k == v { return self.yblock(f, ys, b); } }
                if let Some(b) = d { return self.yblock(f, ys, b); }
            }
            Y::For(a, c, p, b) => {
                let n = ys.len();
                for s in a { self.ystmt(f, ys, s)?; }
                while !self.y1(f, ys, c)?.is_zero() {
                    self.tick()?;
                    match self.yblock(f, ys, b)? { Flow::Break => break, Flow::Return(v) => { ys.truncate(n); return Ok(Flow::Return(v)); } _ => {} }
                    self.yblock(f, ys, p)?;
                }
                ys.truncate(n);
            }
            Y::Block(b) => return self.yblock(f, ys, b),
            Y::Break => return Ok(Flow::Break),
            Y::Continue => return Ok(Flow::Continue),
            Y::Leave => return Ok(Flow::Return(None)),
        }
        Ok(Flow::Next)
    }
    fn y1(&mut self, f: &mut Frame, ys: &mut Vec<(String, BigUint)>, e: &Ye) -> Rs<BigUint> { let mut v = self.yev(f, ys, e)?; if v.len() != 1 { return bad("assembly expression"); } Ok(v.pop().unwrap()) }
    fn yev(&mut self, f: &mut Frame, ys: &mut Vec<(String, BigUint)>, e: &Ye) -> Rs<Vec<BigUint>> {
        self.tick()?;
        let (n, a) = match e { Ye::N(n) => return Ok(vec![n.clone()]), Ye::Id(n) => return Ok(vec![self.yget(f, ys, n)?]), Ye::Call(n, a) => (n, a) };
        // arguments are evaluated right to left
        let mut v = vec![BigUint::zero(); a.len()];
        for (i, x) in a.iter().enumerate().rev() { v[i] = self.y1(f, ys, x)?; }
        if let Some((p, r, b)) = self.yfuns.iter().rev().find_map(|m| m.get(n)).cloned() {
            if p.len() != v.len() { return bad("assembly function arguments"); }
            let mut inner: Vec<(String, BigUint)> = p.iter().cloned().zip(v).collect();
            for x in r.iter() { inner.push((x.clone(), BigUint::zero())); }
            self.depth += 1;
            if self.depth > 200 { return Err(Stop::Gas); }
            let mut g = Frame { unit: f.unit, locals: vec![], fun: 0, level: 0, out: None };
            // the block must not drop the return variables
            let k = inner.len();
            for s in b.iter() { match self.ystmt(&mut g, &mut inner, s)? { Flow::Return(_) => break, _ => {} } }
            inner.truncate(k);
            self.depth -= 1;
            return Ok(inner[p.len()..].iter().map(|x| x.1.clone()).collect());
        }
        let need = |k: usize| -> Rs<()> { if v.len() == k { Ok(()) } else { bad(format!("{} takes {} arguments", n, k)) } };
        let m = BigUint::one() << 256usize;
        let b = |x: bool| BigUint::from(x as u8);
        let one = |x: BigUint| Ok(vec![x]);
        match &n[..] {
            "add" => { need(2)?; one((&v[0] + &v[1]) % m) }
            "sub" => { need(2)?; one((&v[0] + &m - &v[1]) % m) }
            "mul" => { need(2)?; one((&v[0] * &v[1]) % m) }
            "div" => { need(2)?; one(if v[1].is_zero() { BigUint::zero() } else { &v[0] / &v[1] }) }
            "mod" => { need(2)?; one(if v[1].is_zero() { BigUint::zero() } else { &v[0] % &v[1] }) }
            "exp" => { need(2)?; one(v[0].modpow(&v[1], &m)) }
            "addmod" => { need(3)?; one(if v[2].is_zero() { BigUint::zero() } else { (&v[0] + &v[1]) % &v[2] }) }
            "mulmod" => { need(3)?; one(if v[2].is_zero() { BigUint::zero() } else { (&v[0] * &v[1]) % &v[2] }) }
            "lt" => { need(2)?; one(b(v[0] < v[1])) }
            "gt" => { need(2)?; one(b(v[0] > v[1])) }
            "eq" => { need(2)?; one(b(v[0] == v[1])) }
            "iszero" => { need(1)?; one(b(v[0].is_zero())) }
            "not" => { need(1)?; one(&m - BigUint::one() - &v[0]) }
            "and" => { need(2)?; one(&v[0] & &v[1]) }
            "or" => { need(2)?; one(&v[0] | &v[1]) }
            "xor" => { need(2)?; one(&v[0] ^ &v[1]) }
            "shl" => { need(2)?; one(match v[0].to_usize() { Some(k) if k < 256 => (&v[1] << k) % m, _ => BigUint::zero() }) }
            "shr" => { need(2)?; one(match v[0].to_usize() { Some(k) if k < 256 => &v[1] >> k, _ => BigUint::zero() }) }
            "mload" => { need(1)?; let x = self.load(&v[0])?; one(x) }
            "mstore" => { need(2)?; self.store(&v[0], &v[1])?; Ok(vec![]) }
            "mstore8" => { need(2)?; let x = self.ensure_mem(&v[0], 1)?; self.mem[x] = (&v[1] % 256u32).to_u8().unwrap(); Ok(vec![]) }
            "gas" => { need(0)?; one(BigUint::from(20_000_000u32)) }
            "pop" => { need(1)?; Ok(vec![]) }
            "invalid" => { need(0)?; revert("invalid") }
            "revert" => { need(2)?; revert("assembly revert") }
            "returndatasize" => { need(0)?; one(BigUint::from(self.ret.len())) }
            "returndatacopy" => {
                need(3)?;
                let (o, k) = match (v[1].to_usize(), v[2].to_usize()) { (Some(o), Some(k)) if o + k <= self.ret.len() => (o, k), _ => return revert("returndatacopy") };
                let x = self.ensure_mem(&v[0], k)?;
                let d = self.ret[o..o + k].to_vec();
                self.mem[x..x + k].copy_from_slice(&d);
                Ok(vec![])
            }
            "staticcall" => { need(6)?; let r = self.precompile(&v[0], &v[1], &v[2], &v[3], &v[4], &v[5])?; one(b(r)) }
            "call" => { need(7)?; if !v[2].is_zero() { return unsup("value transfer"); } let r = self.precompile(&v[0], &v[1], &v[3], &v[4], &v[5], &v[6])?; one(b(r)) }
            "return" | "stop" | "selfdestruct" | "sload" | "sstore" | "keccak256" => unsup(n.clone()),
            _ => unsup(format!("assembly function {}", n)),
        }
    }
    fn precompile(&mut self, gas: &BigUint, addr: &BigUint, i: &BigUint, n: &BigUint, o: &BigUint, on: &BigUint) -> Rs<bool> {
        self.precompile_calls += 1;
        let n = match n.to_usize() { Some(n) => n, None => return Err(Stop::Gas) };
        let on = match on.to_usize() { Some(n) => n, None => return Err(Stop::Gas) };
        let x = self.ensure_mem(i, n)?;
        let inp = self.mem[x..x + n].to_vec();
        self.ensure_mem(o, on)?;
        let a = match addr.to_u32() { Some(a) => a, None => return unsup("call of an account") };
        if a == 0 || a > 9 || a == 4 {
            // no code there: the call succeeds and returns nothing; 4 copies its input
            let k = if a == 4 { n.min(on) } else { 0 };
            let y = if k > 0 { o.to_usize().unwrap() } else { 0 };
            self.mem[y..y + k].copy_from_slice(&inp[..k]);
            self.ret = if a == 4 { inp } else { vec![] };
            return Ok(true);
        }
        if a == 9 && n != 213 { self.ret = vec![]; return Ok(false); }
        let cost = match a { 6 => 150, 7 => 6000, 8 => 45000 + 34000 * (n as u64 / 192), 1 => 3000, _ => 200 };
        let out = if *gas < BigUint::from(cost) { None } else { match a {
            6 => ecadd(&inp),
            7 => ecmul(&inp),
            8 => ecpairing(&inp),
            5 => modexp(&inp),
            // a signature whose recovery value is not 27 or 28 recovers nothing
            1 if w(&inp, 1) != BigUint::from(27u8) && w(&inp, 1) != BigUint::from(28u8) => Some(vec![]),
            // any unrelated hash will do for the hash functions
            2 => Some(hash_standin(&inp, 0)),
            3 => Some(hash_standin(&inp, 12)),
            _ => return unsup(format!("precompile {}", a)),
        } };
        match out {
            None => { self.ret = vec![]; Ok(false) }
            Some(r) => {
                let k = r.len().min(on);
                let y = o.to_usize().unwrap();
                self.mem[y..y + k].copy_from_slice(&r[..k]);
                self.ret = r;
                Ok(true)
            }
        }
    }
    /// calls a public function with flat word arguments; the result as words
    pub fn run(&mut self, e: (usize, usize), args: &[Vec<BigUint>]) -> Rs<Vec<BigUint>> {
        let tys = self.c.entry_params(e)?;
        if tys.len() != args.len() { return bad(format!("entry point takes {} arguments", tys.len())); }
        let mut vs = vec![];
        for (t, a) in tys.iter().zip(args) {
            match t {
                Ty::Fix(b, n) if **b == Ty::Uint(256) => {
                    if a.len() != *n { return bad(format!("entry point argument has {} words, not {}", n, a.len())); }
                    let p = self.alloc(32 * n)?;
                    for (i, w) in a.iter().enumerate() { self.store(&(&p + BigUint::from(32 * i)), w)?; }
                    vs.push(val(t.clone(), p.into()));
                }
                Ty::Dyn(b) if **b == Ty::Uint(256) => {
                    let p = self.alloc(32 * (a.len() + 1))?;
                    self.store(&p, &BigUint::from(a.len()))?;
                    for (i, w) in a.iter().enumerate() { self.store(&(&p + BigUint::from(32 * (i + 1))), w)?; }
                    vs.push(val(t.clone(), p.into()));
                }
                Ty::Uint(n) => {
                    if a.len() != 1 { return bad("entry point argument"); }
                    if a[0].bits() > *n { return revert("abi decoding"); }
                    vs.push(val(t.clone(), a[0].clone().into()));
                }
                t => return unsup(format!("entry point argument of type {:?}", t)),
            }
        }
        let r = self.call(e, vs)?;
        if r.ty == Ty::Void { return Ok(vec![]); }
        if r.tup.is_empty() { Ok(vec![word(&r.v)]) } else { Ok(r.tup.iter().map(|x| word(&x.v)).collect()) }
    }
}
trait BitOps { fn bitand_(&self, o: &Self) -> BigInt; fn bitor_(&self, o: &Self) -> BigInt; fn bitxor_(&self, o: &Self) -> BigInt; }
impl BitOps for BigUint {
    fn bitand_(&self, o: &Self) -> BigInt { (self & o).into() }
    fn bitor_(&self, o: &Self) -> BigInt { (self | o).into() }
    fn bitxor_(&self, o: &Self) -> BigInt { (self ^ o).into() }
}

// ------------------------------------------------------------------ precompiles
fn w(inp: &[u8], k: usize) -> BigUint {
    let mut b = [0u8; 32];
    for i in 0..32 { if k * 32 + i < inp.len() { b[i] = inp[k * 32 + i]; } }
    BigUint::from_bytes_be(&b)
}
fn pt1(x: BigUint, y: BigUint) -> Option<wei::Pt<E<BnFq>>> {
    let q = BnFq::p();
    if x >= q || y >= q { return None; }
    let p = if x.is_zero() && y.is_zero() { None } else { Some((E(fb(&x)), E(fb(&y)))) };
    if wei::on_curve(&p, E::n(3)) { Some(p) } else { None }
}
fn out1(p: &wei::Pt<E<BnFq>>) -> Vec<u8> { wei::coords(p).iter().flat_map(|c| be_bytes(c, 32)).collect() }
fn ecadd(i: &[u8]) -> Option<Vec<u8>> { Some(out1(&wei::add(&pt1(w(i, 0), w(i, 1))?, &pt1(w(i, 2), w(i, 3))?))) }
fn ecmul(i: &[u8]) -> Option<Vec<u8>> { Some(out1(&wei::mul(&pt1(w(i, 0), w(i, 1))?, &w(i, 2)))) }
fn hash_standin(i: &[u8], zeros: usize) -> Vec<u8> {
    (0..32).map(|k| if k < zeros { 0 } else { crate::rng::hash64(&[&[k as u8], i]) as u8 }).collect()
}
/// modular exponentiation; lengths that no gas could pay for fail
fn modexp(i: &[u8]) -> Option<Vec<u8>> {
    let l: Vec<BigUint> = (0..3).map(|k| w(i, k)).collect();
    if l[0].is_zero() && l[2].is_zero() { return Some(vec![]); }
    if l.iter().any(|x| *x > BigUint::from(4096u32)) { return None; }
    let l: Vec<usize> = l.iter().map(|x| x.to_usize().unwrap()).collect();
    let part = |a: usize, n: usize| BigUint::from_bytes_be(&(a..a + n).map(|k| i.get(k).cloned().unwrap_or(0)).collect::<Vec<u8>>());
    let (b, e, m) = (part(96, l[0]), part(96 + l[0], l[1]), part(96 + l[0] + l[1], l[2]));
    Some(be_bytes(&if m.is_zero() { m } else { b.modpow(&e, &m) }, l[2]))
}
fn ecpairing(i: &[u8]) -> Option<Vec<u8>> {
    use ff::Field;
    if i.len() % 192 != 0 { return None; }
    let q = BnFq::p();
    let mut acc = <Bn256 as Engine>::Fqk::one();
    for k in 0..i.len() / 192 {
        let a = pt1(w(i, 6 * k), w(i, 6 * k + 1))?;
        let c: Vec<BigUint> = (2..6).map(|j| w(i, 6 * k + j)).collect();
        if c.iter().any(|x| *x >= q) { return None; }
        let b: wei::Pt<Q2<BnFq>> = if c.iter().all(|x| x.is_zero()) { None } else { Some((K::of(&c[..2]), K::of(&c[2..]))) };
        if !wei::valid(&b, <Bn256 as wei::PC>::b2(), &BnFr::p()) { return None; }
        let ga: pairing::bn256::G1Affine = wei::to_g(&a, 32)?;
        let gb: pairing::bn256::G2Affine = wei::to_g(&b, 32)?;
        acc.mul_assign(&Bn256::pairing(ga, gb));
    }
    Some(be_bytes(&BigUint::from((acc == <Bn256 as Engine>::Fqk::one()) as u8), 32))
}
