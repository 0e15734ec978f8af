//! A small machine for the contracts of the on-chain verifier: the part of Solidity 0.6 they are written in, with the
//! memory layout the assembly blocks rely on. What it does not know makes it stop with `Halt::Stuck("unknown ...")`.
use crate::yul::{self, w, Halt, W};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type M<T> = Result<T, Halt>;
type R<T> = Result<T, String>;
fn unknown<X>(s: impl std::fmt::Display) -> M<X> {
    Err(Halt::Stuck(format!("unknown {}", s)))
}

// ---------------------------------------------------------------- types
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Uint(u32),
    Bytes(u32),
    Dyn,
    Lit,
    Text,
    Array(T),
    Fixed(T, usize),
    Struct(usize),
    Contract(usize),
}
pub type T = u32;
const BOOL: T = 0;
const UINT: T = 1;
const B32: T = 2;
const DYN: T = 3;
const LIT: T = 4;
const TEXT: T = 5;
const ADDRESS: T = 6;

#[derive(Clone, Copy, Debug)]
pub struct V {
    t: T,
    w: W,
}
/// A value outside of any memory.
#[derive(Clone, Debug, PartialEq)]
pub enum Own {
    Word(W),
    Bytes(Vec<u8>),
    List(Vec<Own>),
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
enum K {
    Id(String),
    Num(W),
    Str(Vec<u8>),
    Hex(Vec<u8>),
    Sym(&'static str),
}
struct Tok {
    k: K,
    at: usize,
}
const SYMS: [&str; 47] = [
    "<<=", ">>=", "**", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "=>", ":=", "->", "{", "}", "(", ")", "[", "]", ",", ";", ".", ":",
    "?", "=", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!",
];
fn lex(src: &str) -> R<Vec<Tok>> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'next: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if src[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if src[i..].starts_with("/*") {
            i = src[i..].find("*/").map_or(b.len(), |x| i + x + 2);
            continue;
        }
        let at = i;
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            let s = &src[at..i];
            if s == "hex" && i < b.len() && (b[i] == b'\'' || b[i] == b'"') {
                let e = src[i + 1..].find(b[i] as char).ok_or("hex literal")? + i + 1;
                let v = crate::props::unhex(&src[i + 1..e]);
                i = e + 1;
                out.push(Tok { k: K::Hex(v), at });
                continue;
            }
            out.push(Tok { k: K::Id(s.into()), at });
            continue;
        }
        if c.is_ascii_digit() {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t: String = src[at..i].chars().filter(|c| *c != '_').collect();
            out.push(Tok { k: K::Num(yul::number(&t).ok_or(format!("number {}", t))?), at });
            continue;
        }
        if c == b'\'' || c == b'"' {
            let e = src[i + 1..].find(c as char).ok_or("text")? + i + 1;
            out.push(Tok { k: K::Str(src[i + 1..e].as_bytes().to_vec()), at });
            i = e + 1;
            continue;
        }
        if c == b'~' {
            out.push(Tok { k: K::Sym("~"), at });
            i += 1;
            continue;
        }
        for s in SYMS.iter() {
            if src[i..].starts_with(s) {
                out.push(Tok { k: K::Sym(s), at });
                i += s.len();
                continue 'next;
            }
        }
        if !c.is_ascii() {
            return Err("character".into());
        }
        return Err(format!("character {:?}", c as char));
    }
    Ok(out)
}

// ---------------------------------------------------------------- syntax
type S = u32;
#[derive(Debug)]
enum Ex {
    Num(W),
    Bool(bool),
    Str(Vec<u8>),
    Hex(Vec<u8>),
    Id(S),
    Type(T),
    Un(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
    Assign(&'static str, Box<Ex>, Box<Ex>),
    Inc(Box<Ex>, bool, bool),
    Index(Box<Ex>, Box<Ex>),
    Member(Box<Ex>, S),
    Call(Box<Ex>, Vec<Ex>),
    Named(Box<Ex>, Vec<(S, Ex)>),
    New(T, Box<Ex>),
    Tuple(Vec<Option<Ex>>),
    List(Vec<Ex>),
}
#[derive(Debug)]
enum St {
    Block(Vec<St>),
    Decl(Vec<Option<(T, S)>>, Option<Ex>),
    If(Ex, Box<St>, Option<Box<St>>),
    For(Option<Box<St>>, Option<Ex>, Option<Ex>, Box<St>),
    While(Ex, Box<St>),
    DoWhile(Box<St>, Ex),
    Return(Option<Ex>),
    Do(Ex),
    Delete(Ex),
    Asm(Rc<yul::Program>, Vec<(String, S)>),
    Body,
    Break,
    Continue,
}
#[derive(Debug)]
struct Fun {
    con: usize,
    params: Vec<(T, S)>,
    rets: Vec<(T, S)>,
    mods: Vec<(S, Vec<Ex>)>,
    body: Option<Vec<St>>,
}
#[derive(Default, Debug)]
struct Con {
    name: String,
    bases: Vec<(S, Vec<Ex>)>,
    using: Vec<S>,
    consts: HashMap<S, (T, Ex)>,
    fixed: Vec<(S, T, Option<Ex>)>,
    funs: HashMap<S, Vec<Rc<Fun>>>,
    mods: HashMap<S, Rc<Fun>>,
    ctor: Option<Rc<Fun>>,
    lin: Vec<usize>,
}
struct Def {
    name: String,
    fields: Vec<(S, T)>,
}
pub struct Unit {
    types: Vec<Ty>,
    names: Vec<String>,
    ids: HashMap<String, S>,
    structs: Vec<Def>,
    cons: Vec<Con>,
    con_of: HashMap<S, usize>,
    struct_of: HashMap<S, usize>,
    anon: S,
}
impl Unit {
    fn sym(&mut self, s: &str) -> S {
        if let Some(x) = self.ids.get(s) {
            return *x;
        }
        self.names.push(s.into());
        self.ids.insert(s.into(), self.names.len() as u32 - 1);
        self.names.len() as u32 - 1
    }
    fn intern(&mut self, t: Ty) -> T {
        if let Some(i) = self.types.iter().position(|x| *x == t) {
            return i as T;
        }
        self.types.push(t);
        self.types.len() as T - 1
    }
    /// All sources of a system; imports are ignored, every contract is visible everywhere.
    pub fn load(sources: &[String]) -> R<Unit> {
        let mut u = Unit { types: vec![Ty::Bool, Ty::Uint(256), Ty::Bytes(32), Ty::Dyn, Ty::Lit, Ty::Text, Ty::Uint(160)], names: vec![], ids: HashMap::new(), structs: vec![], cons: vec![], con_of: HashMap::new(), struct_of: HashMap::new(), anon: 0 };
        u.anon = u.sym("");
        let lexed: Vec<Vec<Tok>> = sources.iter().map(|s| lex(s)).collect::<R<_>>()?;
        for t in &lexed {
            for p in t.windows(2) {
                if let (K::Id(a), K::Id(b)) = (&p[0].k, &p[1].k) {
                    let s = u.sym(b);
                    match a.as_str() {
                        "contract" | "library" | "interface" => {
                            if u.con_of.contains_key(&s) {
                                return Err(format!("two contracts called {}", b));
                            }
                            u.con_of.insert(s, u.cons.len());
                            u.cons.push(Con { name: b.clone(), ..Con::default() });
                        }
                        "struct" => {
                            if u.struct_of.contains_key(&s) {
                                return Err(format!("two structs called {}", b));
                            }
                            u.struct_of.insert(s, u.structs.len());
                            u.structs.push(Def { name: b.clone(), fields: vec![] });
                        }
                        _ => {}
                    }
                }
            }
        }
        for (t, s) in lexed.iter().zip(sources) {
            P { t, i: 0, src: s, u: &mut u }.unit()?;
        }
        for i in 0..u.cons.len() {
            let mut lin = vec![];
            u.linear(i, &mut lin, 0)?;
            lin.reverse();
            u.cons[i].lin = lin;
        }
        Ok(u)
    }
    /// Most basic first; every contract once, after its bases.
    fn linear(&self, c: usize, out: &mut Vec<usize>, depth: usize) -> R<()> {
        if depth > 50 {
            return Err("inheritance".into());
        }
        for (b, _) in &self.cons[c].bases {
            let b = *self.con_of.get(b).ok_or("base contract")?;
            self.linear(b, out, depth + 1)?;
        }
        if !out.contains(&c) {
            out.push(c);
        }
        Ok(())
    }
}
struct P<'a> {
    t: &'a [Tok],
    i: usize,
    src: &'a str,
    u: &'a mut Unit,
}
impl<'a> P<'a> {
    fn is(&self, s: &str) -> bool {
        match self.t.get(self.i).map(|t| &t.k) {
            Some(K::Sym(x)) => *x == s,
            Some(K::Id(x)) => x == s,
            _ => false,
        }
    }
    fn ahead(&self, n: usize, s: &str) -> bool {
        match self.t.get(self.i + n).map(|t| &t.k) {
            Some(K::Sym(x)) => *x == s,
            Some(K::Id(x)) => x == s,
            _ => false,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.is(s);
        if r {
            self.i += 1;
        }
        r
    }
    fn need(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            return Ok(());
        }
        let at = self.t.get(self.i).map_or(self.src.len(), |t| t.at);
        Err(format!("expected {} at {:?}", s, self.src[at..].chars().take(60).collect::<String>()))
    }
    fn id(&mut self) -> R<S> {
        match self.t.get(self.i).map(|t| &t.k) {
            Some(K::Id(s)) => {
                self.i += 1;
                Ok(self.u.sym(s))
            }
            t => Err(format!("expected a name at {:?}", t)),
        }
    }
    fn skip_to(&mut self, s: &str) -> R<()> {
        while !self.is(s) {
            if self.i >= self.t.len() {
                return Err(format!("no {}", s));
            }
            self.i += 1;
        }
        self.i += 1;
        Ok(())
    }
    fn unit(&mut self) -> R<()> {
        while self.i < self.t.len() {
            if self.is("pragma") || self.is("import") {
                self.skip_to(";")?;
                continue;
            }
            if self.is("struct") {
                self.structure()?;
                continue;
            }
            self.eat("abstract");
            if !(self.eat("contract") || self.eat("library") || self.eat("interface")) {
                return Err("expected a contract".into());
            }
            let name = self.id()?;
            let c = self.u.con_of[&name];
            if self.eat("is") {
                loop {
                    let b = self.id()?;
                    let args = if self.is("(") { self.args()? } else { vec![] };
                    self.u.cons[c].bases.push((b, args));
                    if !self.eat(",") {
                        break;
                    }
                }
            }
            self.need("{")?;
            while !self.eat("}") {
                self.item(c)?;
            }
        }
        Ok(())
    }
    fn structure(&mut self) -> R<()> {
        self.need("struct")?;
        let n = self.id()?;
        let d = self.u.struct_of[&n];
        self.need("{")?;
        let mut fields = vec![];
        while !self.eat("}") {
            let t = self.ty()?;
            fields.push((self.id()?, t));
            self.need(";")?;
        }
        self.u.structs[d].fields = fields;
        Ok(())
    }
    fn item(&mut self, c: usize) -> R<()> {
        if self.is("struct") {
            return self.structure();
        }
        if self.is("event") || self.is("enum") {
            return self.skip_to(";");
        }
        if self.eat("using") {
            let l = self.id()?;
            self.u.cons[c].using.push(l);
            return self.skip_to(";");
        }
        if self.is("function") || self.is("constructor") || self.is("modifier") || self.is("fallback") || self.is("receive") {
            let kind = self.id()?;
            let kind = self.u.names[kind as usize].clone();
            let name = if kind == "function" || kind == "modifier" { self.id()? } else { self.u.sym(&kind) };
            let params = if self.is("(") { self.params()? } else { vec![] };
            let mut rets = vec![];
            let mut mods = vec![];
            while !self.is("{") && !self.is(";") {
                if self.eat("returns") {
                    rets = self.params()?;
                    continue;
                }
                let m = self.id()?;
                match self.u.names[m as usize].as_str() {
                    "public" | "private" | "internal" | "external" | "view" | "pure" | "payable" | "virtual" => {}
                    "override" => {
                        if self.is("(") {
                            self.skip_to(")")?;
                        }
                    }
                    _ => {
                        let a = if self.is("(") { self.args()? } else { vec![] };
                        mods.push((m, a));
                    }
                }
            }
            let body = if self.eat(";") { None } else { Some(self.block()?) };
            // unnamed values get a name of their own
            for (k, p) in rets.iter_mut().enumerate() {
                if p.1 == self.u.anon {
                    p.1 = self.u.sym(&format!(" {}", k));
                }
            }
            let f = Rc::new(Fun { con: c, params, rets, mods, body });
            match kind.as_str() {
                "constructor" => self.u.cons[c].ctor = Some(f),
                "modifier" => {
                    self.u.cons[c].mods.insert(name, f);
                }
                _ => self.u.cons[c].funs.entry(name).or_default().push(f),
            }
            return Ok(());
        }
        // a variable
        let t = self.ty()?;
        let (mut constant, mut fixed) = (false, false);
        loop {
            if self.eat("constant") {
                constant = true;
            } else if self.eat("immutable") {
                fixed = true;
            } else if !(self.eat("public") || self.eat("private") || self.eat("internal") || self.eat("override")) {
                break;
            }
        }
        let n = self.id()?;
        let e = if self.eat("=") { Some(self.expr()?) } else { None };
        self.need(";")?;
        let _ = fixed;
        if constant {
            self.u.cons[c].consts.insert(n, (t, e.ok_or("constant")?));
        } else {
            self.u.cons[c].fixed.push((n, t, e));
        }
        Ok(())
    }
    fn params(&mut self) -> R<Vec<(T, S)>> {
        self.need("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            let t = self.ty()?;
            while self.eat("memory") || self.eat("calldata") || self.eat("storage") || self.eat("payable") {}
            let n = if self.is(",") || self.is(")") { self.u.anon } else { self.id()? };
            v.push((t, n));
            if !self.is(")") {
                self.need(",")?;
            }
        }
        Ok(v)
    }
    fn elementary(&mut self, s: &str) -> Option<T> {
        let t = match s {
            "bool" => Ty::Bool,
            "uint" => Ty::Uint(256),
            "address" => Ty::Uint(160),
            "bytes" | "string" => Ty::Dyn,
            "byte" => Ty::Bytes(1),
            _ => {
                if let Some(n) = s.strip_prefix("uint").and_then(|x| x.parse::<u32>().ok()) {
                    if n % 8 != 0 || n == 0 || n > 256 {
                        return None;
                    }
                    Ty::Uint(n)
                } else if let Some(n) = s.strip_prefix("bytes").and_then(|x| x.parse::<u32>().ok()) {
                    if n == 0 || n > 32 {
                        return None;
                    }
                    Ty::Bytes(n)
                } else {
                    return None;
                }
            }
        };
        Some(self.u.intern(t))
    }
    fn ty(&mut self) -> R<T> {
        let s = match self.t.get(self.i).map(|t| &t.k) {
            Some(K::Id(s)) => s.clone(),
            _ => return Err("expected a type".into()),
        };
        self.i += 1;
        let mut t = match self.elementary(&s) {
            Some(t) => {
                if s == "address" {
                    self.eat("payable");
                }
                t
            }
            None => {
                let mut last = self.u.sym(&s);
                while self.is(".") {
                    self.i += 1;
                    last = self.id()?;
                }
                if let Some(d) = self.u.struct_of.get(&last).cloned() {
                    self.u.intern(Ty::Struct(d))
                } else if let Some(c) = self.u.con_of.get(&last).cloned() {
                    self.u.intern(Ty::Contract(c))
                } else {
                    return Err(format!("type {}", s));
                }
            }
        };
        while self.is("[") {
            if self.ahead(1, "]") {
                self.i += 2;
                t = self.u.intern(Ty::Array(t));
            } else if let Some(K::Num(n)) = self.t.get(self.i + 1).map(|t| &t.k) {
                let n = n[0] as usize;
                self.i += 2;
                self.need("]")?;
                t = self.u.intern(Ty::Fixed(t, n));
            } else {
                return Err("array type".into());
            }
        }
        Ok(t)
    }
    fn block(&mut self) -> R<Vec<St>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.stmt()?);
        }
        Ok(v)
    }
    /// type [location] name, or nothing consumed
    fn declared(&mut self) -> Option<(T, S)> {
        let at = self.i;
        if let Ok(t) = self.ty() {
            while self.eat("memory") || self.eat("calldata") || self.eat("storage") || self.eat("payable") {}
            if let Some(K::Id(_)) = self.t.get(self.i).map(|t| &t.k) {
                if let Ok(n) = self.id() {
                    return Some((t, n));
                }
            }
        }
        self.i = at;
        None
    }
    fn tuple_decl(&mut self) -> R<Option<St>> {
        let at = self.i;
        if !self.eat("(") {
            return Ok(None);
        }
        let mut v = vec![];
        let mut any = false;
        loop {
            if self.is(",") || self.is(")") {
                v.push(None);
            } else if let Some(d) = self.declared() {
                v.push(Some(d));
                any = true;
            } else {
                self.i = at;
                return Ok(None);
            }
            if self.eat(")") {
                break;
            }
            if !self.eat(",") {
                self.i = at;
                return Ok(None);
            }
        }
        if !any || !self.is("=") {
            self.i = at;
            return Ok(None);
        }
        self.need("=")?;
        let e = self.expr()?;
        self.need(";")?;
        Ok(Some(St::Decl(v, Some(e))))
    }
    fn simple(&mut self) -> R<St> {
        if let Some(s) = self.tuple_decl()? {
            return Ok(s);
        }
        if let Some(d) = self.declared() {
            let e = if self.eat("=") { Some(self.expr()?) } else { None };
            self.need(";")?;
            return Ok(St::Decl(vec![Some(d)], e));
        }
        let e = self.expr()?;
        self.need(";")?;
        Ok(St::Do(e))
    }
    fn stmt(&mut self) -> R<St> {
        if self.is("{") {
            return Ok(St::Block(self.block()?));
        }
        if self.eat("if") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = Box::new(self.stmt()?);
            let b = if self.eat("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(St::If(c, a, b));
        }
        if self.eat("for") {
            self.need("(")?;
            let a = if self.eat(";") { None } else { Some(Box::new(self.simple()?)) };
            let c = if self.is(";") { None } else { Some(self.expr()?) };
            self.need(";")?;
            let p = if self.is(")") { None } else { Some(self.expr()?) };
            self.need(")")?;
            return Ok(St::For(a, c, p, Box::new(self.stmt()?)));
        }
        if self.eat("while") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            return Ok(St::While(c, Box::new(self.stmt()?)));
        }
        if self.eat("do") {
            let b = Box::new(self.stmt()?);
            self.need("while")?;
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            self.need(";")?;
            return Ok(St::DoWhile(b, c));
        }
        if self.eat("return") {
            let e = if self.is(";") { None } else { Some(self.expr()?) };
            self.need(";")?;
            return Ok(St::Return(e));
        }
        if self.eat("emit") {
            let _ = self.id()?;
            let a = self.args()?;
            self.need(";")?;
            return Ok(St::Block(a.into_iter().map(St::Do).collect()));
        }
        if self.eat("delete") {
            let e = self.expr()?;
            self.need(";")?;
            return Ok(St::Delete(e));
        }
        if self.eat("break") {
            self.need(";")?;
            return Ok(St::Break);
        }
        if self.eat("continue") {
            self.need(";")?;
            return Ok(St::Continue);
        }
        if self.is("_") && self.ahead(1, ";") {
            self.i += 2;
            return Ok(St::Body);
        }
        if self.is("assembly") && self.ahead(1, "{") {
            self.i += 1;
            let from = self.t[self.i].at;
            let mut depth = 0;
            loop {
                if self.is("{") {
                    depth += 1;
                }
                if self.is("}") {
                    depth -= 1;
                }
                self.i += 1;
                if depth == 0 {
                    break;
                }
                if self.i >= self.t.len() {
                    return Err("assembly".into());
                }
            }
            let to = self.t[self.i - 1].at + 1;
            let p = yul::block_of(&self.src[from..to])?;
            let names = p.names.iter().map(|n| (n.clone(), self.u.sym(n))).collect();
            return Ok(St::Asm(Rc::new(p), names));
        }
        self.simple()
    }
    fn args(&mut self) -> R<Vec<Ex>> {
        self.need("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            v.push(self.expr()?);
            if !self.is(")") {
                self.need(",")?;
            }
        }
        Ok(v)
    }
    fn expr(&mut self) -> R<Ex> {
        let a = self.binary(0)?;
        if self.eat("?") {
            let b = self.expr()?;
            self.need(":")?;
            let c = self.expr()?;
            return Ok(Ex::Cond(Box::new(a), Box::new(b), Box::new(c)));
        }
        for (s, op) in [("=", ""), ("+=", "+"), ("-=", "-"), ("*=", "*"), ("/=", "/"), ("%=", "%"), ("|=", "|"), ("&=", "&"), ("^=", "^"), ("<<=", "<<"), (">>=", ">>")] {
            if self.is(s) {
                self.i += 1;
                let b = self.expr()?;
                return Ok(Ex::Assign(op, Box::new(a), Box::new(b)));
            }
        }
        Ok(a)
    }
    fn binary(&mut self, level: usize) -> R<Ex> {
        const L: [&[&str]; 11] = [&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"], &["**"]];
        if level == L.len() {
            return self.unary();
        }
        let mut a = self.binary(level + 1)?;
        'again: loop {
            for op in L[level] {
                if self.is(op) {
                    self.i += 1;
                    // powers associate to the right
                    let b = if level == 10 { self.binary(level)? } else { self.binary(level + 1)? };
                    a = Ex::Bin(op, Box::new(a), Box::new(b));
                    continue 'again;
                }
            }
            return Ok(a);
        }
    }
    fn unary(&mut self) -> R<Ex> {
        for op in ["!", "~", "-"] {
            if self.is(op) {
                self.i += 1;
                return Ok(Ex::Un(op, Box::new(self.unary()?)));
            }
        }
        for (op, up) in [("++", true), ("--", false)] {
            if self.is(op) {
                self.i += 1;
                return Ok(Ex::Inc(Box::new(self.unary()?), up, true));
            }
        }
        let mut e = self.primary()?;
        loop {
            if self.eat("[") {
                let i = self.expr()?;
                self.need("]")?;
                e = Ex::Index(Box::new(e), Box::new(i));
            } else if self.eat(".") {
                e = Ex::Member(Box::new(e), self.id()?);
            } else if self.is("(") && self.ahead(1, "{") {
                self.i += 2;
                let mut v = vec![];
                while !self.eat("}") {
                    let n = self.id()?;
                    self.need(":")?;
                    v.push((n, self.expr()?));
                    if !self.is("}") {
                        self.need(",")?;
                    }
                }
                self.need(")")?;
                e = Ex::Named(Box::new(e), v);
            } else if self.is("(") {
                e = Ex::Call(Box::new(e), self.args()?);
            } else if self.eat("++") {
                e = Ex::Inc(Box::new(e), true, false);
            } else if self.eat("--") {
                e = Ex::Inc(Box::new(e), false, false);
            } else {
                return Ok(e);
            }
        }
    }
    fn primary(&mut self) -> R<Ex> {
        let k = match self.t.get(self.i) {
            Some(t) => t.k.clone(),
            None => return Err("expected an expression".into()),
        };
        self.i += 1;
        Ok(match k {
            K::Num(n) => Ex::Num(n),
            K::Str(s) => Ex::Str(s),
            K::Hex(s) => Ex::Hex(s),
            K::Id(s) => match s.as_str() {
                "true" => Ex::Bool(true),
                "false" => Ex::Bool(false),
                "new" => {
                    let t = self.ty()?;
                    let mut a = self.args()?;
                    if a.len() != 1 {
                        return Err("new".into());
                    }
                    Ex::New(t, Box::new(a.pop().unwrap()))
                }
                _ => match self.elementary(&s) {
                    Some(t) => {
                        if self.is("[") && self.ahead(1, "]") {
                            self.i -= 1;
                            return Ok(Ex::Type(self.ty()?));
                        }
                        Ex::Type(t)
                    }
                    None => Ex::Id(self.u.sym(&s)),
                },
            },
            K::Sym("(") => {
                let mut v = vec![];
                loop {
                    if self.is(",") || self.is(")") {
                        v.push(None);
                    } else {
                        v.push(Some(self.expr()?));
                    }
                    if self.eat(")") {
                        break;
                    }
                    self.need(",")?;
                }
                if v.len() == 1 && v[0].is_some() {
                    return Ok(v.pop().unwrap().unwrap());
                }
                Ex::Tuple(v)
            }
            K::Sym("[") => {
                let mut v = vec![];
                while !self.eat("]") {
                    v.push(self.expr()?);
                    if !self.is("]") {
                        self.need(",")?;
                    }
                }
                Ex::List(v)
            }
            k => return Err(format!("expected an expression at {:?}", k)),
        })
    }
}

// ---------------------------------------------------------------- chain
struct Deployed {
    con: usize,
    fixed: HashMap<S, V>,
}
/// Contracts at addresses. One transaction at a time.
pub struct Chain<'u> {
    pub u: &'u Unit,
    at: RefCell<Vec<Rc<Deployed>>>,
    /// low level calls made so far in this transaction
    pub calls: Cell<u64>,
    /// the low level call with this number fails
    pub fail_call: Cell<Option<u64>>,
    pub value: Cell<u64>,
    pub steps: Cell<u64>,
    pub limit: Cell<u64>,
    /// text of the last failed requirement
    pub reason: RefCell<String>,
}
const BASE: u64 = 0x1000;
impl<'u> Chain<'u> {
    pub fn new(u: &'u Unit) -> Chain<'u> {
        Chain { u, at: RefCell::new(vec![]), calls: Cell::new(0), fail_call: Cell::new(None), value: Cell::new(0), steps: Cell::new(0), limit: Cell::new(40_000_000), reason: RefCell::new(String::new()) }
    }
    pub fn begin(&self) {
        self.calls.set(0);
        self.steps.set(0);
        self.fail_call.set(None);
        self.value.set(0);
        self.reason.replace(String::new());
    }
    pub fn deploy(&self, name: &str, args: &[Own]) -> M<W> {
        let con = match self.u.ids.get(name).and_then(|s| self.u.con_of.get(s)) {
            Some(c) => *c,
            None => return unknown(format!("contract {}", name)),
        };
        let mut m = Mach::new(self, con, Rc::new(Deployed { con, fixed: HashMap::new() }), &[]);
        let lin = self.u.cons[con].lin.clone();
        for c in lin.iter().rev() {
            for (s, t, e) in &self.u.cons[*c].fixed {
                let v = match e {
                    Some(e) => {
                        let mut fr = Frame::new(*c);
                        let v = m.one(e, &mut fr)?;
                        m.convert(v, *t, false)?
                    }
                    None => V { t: *t, w: w(0) },
                };
                m.building.insert(*s, v);
            }
            if let Some(f) = &self.u.cons[*c].ctor {
                let mut vals = vec![];
                if *c == con {
                    for (p, a) in f.params.iter().zip(args) {
                        vals.push(m.insert(a, p.0)?);
                    }
                } else {
                    // arguments from the inheritance list or the constructor of some descendant
                    let name = self.u.ids[&self.u.cons[*c].name];
                    let mut found = None;
                    for d in &lin {
                        if let Some((_, a)) = self.u.cons[*d].bases.iter().find(|b| b.0 == name && !b.1.is_empty()) {
                            found = Some((*d, a));
                        }
                    }
                    if let Some((d, a)) = found {
                        let mut fr = Frame::new(d);
                        for e in a {
                            vals.push(m.one(e, &mut fr)?);
                        }
                    }
                }
                if vals.len() != f.params.len() {
                    return unknown("constructor arguments");
                }
                m.invoke(f, vals)?;
            }
        }
        let fixed = std::mem::take(&mut m.building);
        let mut at = self.at.borrow_mut();
        at.push(Rc::new(Deployed { con, fixed }));
        Ok(w(BASE + at.len() as u64 - 1))
    }
    fn find(&self, a: &W) -> Option<Rc<Deployed>> {
        if a[1] | a[2] | a[3] != 0 || a[0] < BASE {
            return None;
        }
        self.at.borrow().get((a[0] - BASE) as usize).cloned()
    }
    /// A call by name, as a transaction or from another contract.
    pub fn call(&self, to: &W, name: &str, args: &[Own]) -> M<Vec<Own>> {
        let d = match self.find(to) {
            Some(d) => d,
            None => return Err(Halt::Revert),
        };
        let f = match self.u.ids.get(name).and_then(|s| self.u.find(d.con, *s).into_iter().find(|f| f.params.len() == args.len() && f.body.is_some())) {
            Some(f) => f,
            None => return unknown(format!("function {}", name)),
        };
        let mut m = Mach::new(self, d.con, d.clone(), &[]);
        let mut vals = vec![];
        for (p, a) in f.params.iter().zip(args) {
            vals.push(m.insert(a, p.0)?);
        }
        let r = m.invoke(&f, vals)?;
        r.iter().map(|v| m.extract(*v)).collect()
    }
    /// A call with raw input.
    fn raw(&self, to: &W, input: &[u8]) -> M<Option<Vec<u8>>> {
        let k = self.calls.get();
        self.calls.set(k + 1);
        if self.fail_call.get() == Some(k) {
            return Ok(None);
        }
        let d = match self.find(to) {
            Some(d) => d,
            None => return Ok(Some(vec![])),
        };
        let f = match self.u.ids.get("fallback").and_then(|s| self.u.find(d.con, *s).into_iter().next()) {
            Some(f) => f,
            None => return unknown("raw call"),
        };
        let mut m = Mach::new(self, d.con, d.clone(), input);
        match m.invoke(&f, vec![]) {
            Ok(_) => Ok(Some(vec![])),
            Err(Halt::Return(b)) => Ok(Some(b)),
            Err(Halt::Revert) => Ok(None),
            Err(e) => Err(e),
        }
    }
}
impl Unit {
    fn find(&self, con: usize, s: S) -> Vec<Rc<Fun>> {
        let mut v: Vec<Rc<Fun>> = vec![];
        for c in &self.cons[con].lin {
            for f in self.cons[*c].funs.get(&s).into_iter().flatten() {
                // overridden by a more derived one?
                if !v.iter().any(|g| g.params.iter().map(|p| p.0).eq(f.params.iter().map(|p| p.0))) {
                    v.push(f.clone());
                }
            }
        }
        v
    }
    /// Type of a field of a struct by name, for building arguments.
    pub fn fields(&self, name: &str) -> Option<Vec<String>> {
        let d = self.ids.get(name).and_then(|s| self.struct_of.get(s))?;
        Some(self.structs[*d].fields.iter().map(|f| self.names[f.0 as usize].clone()).collect())
    }
}

// ---------------------------------------------------------------- machine
struct Frame {
    con: usize,
    vars: Vec<(S, V)>,
    rets: Vec<V>,
    returned: bool,
}
impl Frame {
    fn new(con: usize) -> Frame {
        Frame { con, vars: vec![], rets: vec![], returned: false }
    }
}
enum Flow {
    Next,
    Break,
    Continue,
    Return,
}
struct Mach<'c, 'u> {
    ch: &'c Chain<'u>,
    u: &'u Unit,
    con: usize,
    me: Rc<Deployed>,
    building: HashMap<S, V>,
    mem: Vec<u8>,
    input: &'c [u8],
    depth: usize,
    texts: Vec<Vec<u8>>,
}
impl<'c, 'u> Mach<'c, 'u> {
    fn new(ch: &'c Chain<'u>, con: usize, me: Rc<Deployed>, input: &'c [u8]) -> Self {
        let mut m = Mach { ch, u: ch.u, con, me, building: HashMap::new(), mem: vec![0; 0x80], input, depth: 0, texts: vec![] };
        m.mem[0x40..0x60].copy_from_slice(&yul::bytes(&w(0x80)));
        m
    }
    fn tick(&mut self) -> M<()> {
        let s = self.ch.steps.get() + 1;
        self.ch.steps.set(s);
        if s > self.ch.limit.get() {
            return Err(Halt::Stuck("out of gas".into()));
        }
        Ok(())
    }
    fn ty(&self, t: T) -> &'u Ty {
        &self.u.types[t as usize]
    }
    // memory
    fn span(&mut self, a: &W, n: usize) -> M<usize> {
        if a[1] | a[2] | a[3] != 0 || a[0] > 1 << 24 {
            return Err(Halt::Revert);
        }
        let i = a[0] as usize;
        if self.mem.len() < i + n {
            self.mem.resize(i + n, 0);
        }
        Ok(i)
    }
    fn get(&mut self, a: &W) -> M<W> {
        let i = self.span(a, 32)?;
        Ok(yul::word(&self.mem[i..i + 32]))
    }
    fn put(&mut self, a: &W, v: &W) -> M<()> {
        let i = self.span(a, 32)?;
        self.mem[i..i + 32].copy_from_slice(&yul::bytes(v));
        Ok(())
    }
    fn alloc(&mut self, n: usize) -> M<W> {
        let p = self.get(&w(0x40))?;
        let i = self.span(&p, n)?;
        for b in &mut self.mem[i..i + n] {
            *b = 0;
        }
        self.put(&w(0x40), &w((i + (n + 31) / 32 * 32) as u64))?;
        Ok(p)
    }
    fn default(&mut self, t: T) -> M<V> {
        let x = match self.ty(t).clone() {
            Ty::Array(_) | Ty::Dyn => w(0x60),
            Ty::Fixed(e, n) => {
                let p = self.alloc(32 * n)?;
                for i in 0..n {
                    let v = self.default(e)?;
                    self.put(&w(p[0] + 32 * i as u64), &v.w)?;
                }
                p
            }
            Ty::Struct(d) => {
                let f: Vec<T> = self.u.structs[d].fields.iter().map(|f| f.1).collect();
                let p = self.alloc(32 * f.len())?;
                for (i, t) in f.into_iter().enumerate() {
                    let v = self.default(t)?;
                    self.put(&w(p[0] + 32 * i as u64), &v.w)?;
                }
                p
            }
            _ => w(0),
        };
        Ok(V { t, w: x })
    }
    fn len(&mut self, a: &W) -> M<usize> {
        let n = self.get(a)?;
        if n[1] | n[2] | n[3] != 0 || n[0] > 1 << 20 {
            return Err(Halt::Revert);
        }
        Ok(n[0] as usize)
    }
    fn bytes_at(&mut self, a: &W) -> M<Vec<u8>> {
        let n = self.len(a)?;
        let i = self.span(&w(a[0] + 32), n)?;
        Ok(self.mem[i..i + n].to_vec())
    }
    fn new_bytes(&mut self, b: &[u8]) -> M<V> {
        let p = self.alloc(32 + b.len())?;
        self.put(&p, &w(b.len() as u64))?;
        let i = p[0] as usize + 32;
        self.mem[i..i + b.len()].copy_from_slice(b);
        Ok(V { t: DYN, w: p })
    }
    fn extract(&mut self, v: V) -> M<Own> {
        Ok(match self.ty(v.t).clone() {
            Ty::Dyn => Own::Bytes(self.bytes_at(&v.w)?),
            Ty::Array(e) => {
                let n = self.len(&v.w)?;
                let mut o = vec![];
                for i in 0..n {
                    let x = self.get(&w(v.w[0] + 32 + 32 * i as u64))?;
                    o.push(self.extract(V { t: e, w: x })?);
                }
                Own::List(o)
            }
            Ty::Fixed(e, n) => {
                let mut o = vec![];
                for i in 0..n {
                    let x = self.get(&w(v.w[0] + 32 * i as u64))?;
                    o.push(self.extract(V { t: e, w: x })?);
                }
                Own::List(o)
            }
            Ty::Struct(d) => {
                let mut o = vec![];
                for i in 0..self.u.structs[d].fields.len() {
                    let t = self.u.structs[d].fields[i].1;
                    let x = self.get(&w(v.w[0] + 32 * i as u64))?;
                    o.push(self.extract(V { t, w: x })?);
                }
                Own::List(o)
            }
            _ => Own::Word(v.w),
        })
    }
    /// Arguments arrive: ranges of small types are checked.
    fn insert(&mut self, o: &Own, t: T) -> M<V> {
        let x = match (self.ty(t).clone(), o) {
            (Ty::Dyn, Own::Bytes(b)) => self.new_bytes(b)?.w,
            (Ty::Array(e), Own::List(v)) => {
                let p = self.alloc(32 + 32 * v.len())?;
                self.put(&p, &w(v.len() as u64))?;
                for (i, x) in v.iter().enumerate() {
                    let y = self.insert(x, e)?;
                    self.put(&w(p[0] + 32 + 32 * i as u64), &y.w)?;
                }
                p
            }
            (Ty::Fixed(e, n), Own::List(v)) if v.len() == n => {
                let p = self.alloc(32 * n)?;
                for (i, x) in v.iter().enumerate() {
                    let y = self.insert(x, e)?;
                    self.put(&w(p[0] + 32 * i as u64), &y.w)?;
                }
                p
            }
            (Ty::Struct(d), Own::List(v)) if v.len() == self.u.structs[d].fields.len() => {
                let p = self.alloc(32 * v.len())?;
                for (i, x) in v.iter().enumerate() {
                    let t = self.u.structs[d].fields[i].1;
                    let y = self.insert(x, t)?;
                    self.put(&w(p[0] + 32 * i as u64), &y.w)?;
                }
                p
            }
            (Ty::Array(_), _) | (Ty::Fixed(..), _) | (Ty::Struct(_), _) | (Ty::Dyn, _) => return unknown("argument shape"),
            (_, Own::Word(x)) => {
                if self.clean(*x, t) != *x {
                    return Err(Halt::Revert);
                }
                *x
            }
            _ => return unknown("argument shape"),
        };
        Ok(V { t, w: x })
    }
    fn clean(&self, x: W, t: T) -> W {
        match self.ty(t) {
            Ty::Uint(n) if *n < 256 => low(x, *n),
            Ty::Bytes(n) if *n < 32 => high(x, 8 * *n),
            Ty::Bool => w(!yul::is_zero(&x) as u64),
            _ => x,
        }
    }
    /// Implicit conversions are those of assignments and calls.
    fn fits(&self, v: V, t: T) -> bool {
        if v.t == t {
            return true;
        }
        match (self.ty(v.t), self.ty(t)) {
            (Ty::Uint(a), Ty::Uint(b)) => a <= b,
            (Ty::Bytes(a), Ty::Bytes(b)) => a <= b,
            (Ty::Lit, Ty::Uint(n)) => low(v.w, *n) == v.w,
            (Ty::Lit, Ty::Bytes(32)) => true,
            (Ty::Lit, Ty::Bytes(_)) => yul::is_zero(&v.w),
            (Ty::Text, Ty::Bytes(n)) => self.texts[v.w[0] as usize].len() <= *n as usize,
            (Ty::Text, Ty::Dyn) => true,
            (Ty::Contract(_), Ty::Contract(_)) => true,
            (Ty::Contract(_), Ty::Uint(160)) => true,
            _ => false,
        }
    }
    fn convert(&mut self, v: V, t: T, explicit: bool) -> M<V> {
        if v.t == t {
            return Ok(v);
        }
        if !explicit && !self.fits(v, t) {
            return unknown(format!("conversion of {:?} to {:?}", self.ty(v.t), self.ty(t)));
        }
        let x = match (self.ty(v.t).clone(), self.ty(t).clone()) {
            (Ty::Uint(_), Ty::Uint(n)) | (Ty::Lit, Ty::Uint(n)) | (Ty::Contract(_), Ty::Uint(n)) => low(v.w, n),
            (Ty::Lit, Ty::Bytes(n)) | (Ty::Uint(_), Ty::Bytes(n)) => yul::shift(&low(v.w, 8 * n), &w(256 - 8 * n as u64), true),
            (Ty::Bytes(_), Ty::Bytes(n)) => high(v.w, 8 * n),
            (Ty::Bytes(a), Ty::Uint(n)) => low(yul::shift(&v.w, &w(256 - 8 * a as u64), false), n),
            (Ty::Text, Ty::Bytes(_)) => yul::word(&self.texts[v.w[0] as usize].clone()),
            (Ty::Text, Ty::Dyn) => {
                let b = self.texts[v.w[0] as usize].clone();
                self.new_bytes(&b)?.w
            }
            (Ty::Contract(_), Ty::Contract(_)) | (Ty::Uint(_), Ty::Contract(_)) | (Ty::Lit, Ty::Contract(_)) => v.w,
            (a, b) => return unknown(format!("conversion of {:?} to {:?}", a, b)),
        };
        Ok(V { t, w: x })
    }
    // functions
    fn invoke(&mut self, f: &Rc<Fun>, args: Vec<V>) -> M<Vec<V>> {
        self.depth += 1;
        if self.depth > 100 {
            return unknown("recursion");
        }
        let mut fr = Frame::new(f.con);
        for (p, v) in f.params.iter().zip(args) {
            let v = self.convert(v, p.0, false)?;
            fr.vars.push((p.1, v));
        }
        for (t, s) in &f.rets {
            let v = self.default(*t)?;
            fr.vars.push((*s, v));
        }
        self.around(f, 0, &mut fr)?;
        self.depth -= 1;
        if fr.returned {
            return Ok(fr.rets);
        }
        f.rets.iter().map(|r| self.var(&fr, r.1)).collect()
    }
    fn var(&self, fr: &Frame, s: S) -> M<V> {
        match fr.vars.iter().rev().find(|v| v.0 == s) {
            Some(v) => Ok(v.1),
            None => unknown(format!("name {}", self.u.names[s as usize])),
        }
    }
    /// The function's body inside its modifiers.
    fn around(&mut self, f: &Rc<Fun>, k: usize, fr: &mut Frame) -> M<()> {
        if k < f.mods.len() {
            let (s, args) = &f.mods[k];
            let found = self.u.cons[self.con].lin.iter().chain(self.u.cons[f.con].lin.iter()).find_map(|c| self.u.cons[*c].mods.get(s).cloned());
            let m = match found {
                Some(m) => m,
                // base constructor arguments are dealt with elsewhere
                None => return unknown(format!("modifier {}", self.u.names[*s as usize])),
            };
            let mut inner = Frame::new(m.con);
            for (p, e) in m.params.iter().zip(args) {
                let v = self.one(e, fr)?;
                let v = self.convert(v, p.0, false)?;
                inner.vars.push((p.1, v));
            }
            for s in m.body.as_ref().ok_or(Halt::Stuck("unknown modifier".into()))? {
                if let St::Body = s {
                    self.around(f, k + 1, fr)?;
                } else {
                    let _ = self.stmt(s, &mut inner)?;
                }
            }
            return Ok(());
        }
        match &f.body {
            Some(b) => {
                let f2 = self.run(b, fr, &f.rets)?;
                let _ = f2;
                Ok(())
            }
            None => unknown("function without body"),
        }
    }
    fn run(&mut self, b: &[St], fr: &mut Frame, rets: &[(T, S)]) -> M<Flow> {
        for s in b {
            match self.stmt(s, fr)? {
                Flow::Next => {}
                Flow::Return => {
                    if !fr.rets.is_empty() {
                        if fr.rets.len() != rets.len() {
                            return unknown("number of values returned");
                        }
                        for (i, r) in rets.iter().enumerate() {
                            fr.rets[i] = self.convert(fr.rets[i], r.0, false)?;
                        }
                        fr.returned = true;
                    }
                    return Ok(Flow::Return);
                }
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn scoped(&mut self, b: &[St], fr: &mut Frame) -> M<Flow> {
        let n = fr.vars.len();
        let mut r = Flow::Next;
        for s in b {
            match self.stmt(s, fr)? {
                Flow::Next => {}
                f => {
                    r = f;
                    break;
                }
            }
        }
        fr.vars.truncate(n);
        Ok(r)
    }
    fn truth(&mut self, e: &Ex, fr: &mut Frame) -> M<bool> {
        let v = self.one(e, fr)?;
        if v.t != BOOL {
            return unknown("condition");
        }
        Ok(!yul::is_zero(&v.w))
    }
    fn stmt(&mut self, s: &St, fr: &mut Frame) -> M<Flow> {
        self.tick()?;
        match s {
            St::Block(b) => return self.scoped(b, fr),
            St::Decl(d, e) => {
                let vals = match e {
                    Some(e) => self.many(e, fr)?,
                    None => {
                        let mut v = vec![];
                        for x in d {
                            match x {
                                Some((t, _)) => v.push(self.default(*t)?),
                                None => return unknown("declaration"),
                            }
                        }
                        v
                    }
                };
                if vals.len() != d.len() {
                    return unknown("number of values");
                }
                for (d, v) in d.iter().zip(vals) {
                    if let Some((t, s)) = d {
                        let v = self.convert(v, *t, false)?;
                        fr.vars.push((*s, v));
                    }
                }
            }
            St::If(c, a, b) => {
                if self.truth(c, fr)? {
                    return self.scoped(std::slice::from_ref(a), fr);
                }
                if let Some(b) = b {
                    return self.scoped(std::slice::from_ref(b), fr);
                }
            }
            St::For(a, c, p, b) => {
                let n = fr.vars.len();
                if let Some(a) = a {
                    let _ = self.stmt(a, fr)?;
                }
                let mut r = Flow::Next;
                loop {
                    self.tick()?;
                    if let Some(c) = c {
                        if !self.truth(c, fr)? {
                            break;
                        }
                    }
                    match self.scoped(std::slice::from_ref(b), fr)? {
                        Flow::Break => break,
                        Flow::Return => {
                            r = Flow::Return;
                            break;
                        }
                        _ => {}
                    }
                    if let Some(p) = p {
                        let _ = self.many(p, fr)?;
                    }
                }
                fr.vars.truncate(n);
                return Ok(r);
            }
            St::While(c, b) => {
                while self.truth(c, fr)? {
                    self.tick()?;
                    match self.scoped(std::slice::from_ref(b), fr)? {
                        Flow::Break => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                }
            }
            St::DoWhile(b, c) => loop {
                self.tick()?;
                match self.scoped(std::slice::from_ref(b), fr)? {
                    Flow::Break => break,
                    Flow::Return => return Ok(Flow::Return),
                    _ => {}
                }
                if !self.truth(c, fr)? {
                    break;
                }
            },
            St::Return(e) => {
                if let Some(e) = e {
                    fr.rets = self.many(e, fr)?;
                }
                return Ok(Flow::Return);
            }
            St::Do(e) => {
                let _ = self.many(e, fr)?;
            }
            St::Delete(e) => {
                let v = self.one(e, fr)?;
                let d = self.default(v.t)?;
                self.assign(e, d, fr)?;
            }
            St::Asm(p, names) => self.assembly(p, names, fr)?,
            St::Body => return unknown("placeholder"),
            St::Break => return Ok(Flow::Break),
            St::Continue => return Ok(Flow::Continue),
        }
        Ok(Flow::Next)
    }
    fn assembly(&mut self, p: &yul::Program, names: &[(String, S)], fr: &mut Frame) -> M<()> {
        let mut given: Vec<(&str, W)> = vec![];
        let mut back: Vec<(&str, usize)> = vec![];
        let mut consts = HashMap::new();
        for (n, s) in names {
            if let Some(i) = fr.vars.iter().rposition(|v| v.0 == *s) {
                given.push((n, fr.vars[i].1.w));
                back.push((n, i));
            } else if let Some(v) = self.constant(fr.con, *s)? {
                consts.insert(n.clone(), v.w);
            }
        }
        let ch = self.ch;
        let mut m = yul::Machine::new(self.input);
        m.value = ch.value.get();
        m.calls = ch.calls.get();
        m.fail_call = ch.fail_call.get();
        m.steps = ch.steps.get();
        m.limit = ch.limit.get();
        m.mem = std::mem::take(&mut self.mem);
        m.outside = Some(Rc::new(move |a: &W, input: &[u8]| ch.raw(a, input)));
        m.consts = consts;
        let before = m.calls;
        let r = m.run(p, &given);
        // calls of the precompile; the others counted themselves
        ch.calls.set(ch.calls.get() + m.calls - before);
        ch.steps.set(ch.steps.get().max(m.steps));
        self.mem = std::mem::take(&mut m.mem);
        let r = r?;
        for (n, i) in back {
            fr.vars[i].1.w = r[n];
        }
        Ok(())
    }
    fn constant(&mut self, con: usize, s: S) -> M<Option<V>> {
        let u = self.u;
        for c in u.cons[con].lin.iter().chain(u.cons[self.con].lin.iter()) {
            if let Some((t, e)) = u.cons[*c].consts.get(&s) {
                let mut fr = Frame::new(*c);
                let v = self.one(e, &mut fr)?;
                return Ok(Some(self.convert(v, *t, false)?));
            }
        }
        Ok(None)
    }
    fn name(&mut self, s: S, fr: &Frame) -> M<V> {
        if let Some(v) = fr.vars.iter().rev().find(|v| v.0 == s) {
            return Ok(v.1);
        }
        if let Some(v) = self.building.get(&s).or_else(|| self.me.fixed.get(&s)) {
            return Ok(*v);
        }
        if let Some(v) = self.constant(fr.con, s)? {
            return Ok(v);
        }
        unknown(format!("name {}", self.u.names[s as usize]))
    }
    fn is_var(&self, s: S, fr: &Frame) -> bool {
        fr.vars.iter().any(|v| v.0 == s)
    }
    fn one(&mut self, e: &Ex, fr: &mut Frame) -> M<V> {
        match e {
            Ex::Num(n) => return Ok(V { t: LIT, w: *n }),
            Ex::Bool(b) => return Ok(V { t: BOOL, w: w(*b as u64) }),
            Ex::Id(s) => return self.name(*s, fr),
            Ex::Str(b) | Ex::Hex(b) => {
                self.texts.push(b.clone());
                return Ok(V { t: TEXT, w: w(self.texts.len() as u64 - 1) });
            }
            Ex::Un(op, a) => {
                let a = self.one(a, fr)?;
                let x = match *op {
                    "!" => w(yul::is_zero(&a.w) as u64),
                    "-" => yul::sub(&w(0), &a.w),
                    _ => [!a.w[0], !a.w[1], !a.w[2], !a.w[3]],
                };
                return Ok(V { t: a.t, w: self.clean(x, a.t) });
            }
            Ex::Bin(op, a, b) => {
                if *op == "&&" {
                    let r = self.truth(a, fr)? && self.truth(b, fr)?;
                    return Ok(V { t: BOOL, w: w(r as u64) });
                }
                if *op == "||" {
                    let r = self.truth(a, fr)? || self.truth(b, fr)?;
                    return Ok(V { t: BOOL, w: w(r as u64) });
                }
                let a = self.one(a, fr)?;
                let b = self.one(b, fr)?;
                return self.op(op, a, b);
            }
            Ex::Cond(c, a, b) => return if self.truth(c, fr)? { self.one(a, fr) } else { self.one(b, fr) },
            Ex::Index(b, i) => {
                let b = self.one(b, fr)?;
                let i = self.one(i, fr)?;
                let (p, t) = self.slot(b, i)?;
                let x = self.get(&p)?;
                return Ok(V { t, w: self.clean(x, t) });
            }
            Ex::Member(b, s) => {
                let n = self.u.names[*s as usize].as_str();
                if let Ex::Id(l) = &**b {
                    if !self.is_var(*l, fr) {
                        if let Some(c) = self.u.con_of.get(l) {
                            return match self.constant(*c, *s)? {
                                Some(v) => Ok(v),
                                None => unknown(format!("member {}", n)),
                            };
                        }
                        if self.u.names[*l as usize] == "msg" && n == "value" {
                            return Ok(V { t: UINT, w: w(self.ch.value.get()) });
                        }
                    }
                }
                let v = self.one(b, fr)?;
                match self.ty(v.t).clone() {
                    Ty::Array(_) | Ty::Dyn if n == "length" => {
                        let x = self.get(&v.w)?;
                        return Ok(V { t: UINT, w: x });
                    }
                    Ty::Fixed(_, k) if n == "length" => return Ok(V { t: UINT, w: w(k as u64) }),
                    Ty::Struct(_) => {
                        let (p, t) = self.field(v, *s)?;
                        let x = self.get(&p)?;
                        return Ok(V { t, w: self.clean(x, t) });
                    }
                    _ => return unknown(format!("member {}", n)),
                }
            }
            Ex::Inc(a, up, first) => {
                let old = self.one(a, fr)?;
                let d = V { t: LIT, w: w(1) };
                let new = self.op(if *up { "+" } else { "-" }, old, d)?;
                let new = self.convert(new, old.t, true)?;
                self.assign(a, new, fr)?;
                return Ok(if *first { new } else { old });
            }
            Ex::Assign(op, a, b) if !matches!(**a, Ex::Tuple(_)) => {
                let v = if op.is_empty() {
                    self.one(b, fr)?
                } else {
                    let b = self.one(b, fr)?;
                    let a = self.one(a, fr)?;
                    let r = self.op(op, a, b)?;
                    self.convert(r, a.t, true)?
                };
                return self.assign(a, v, fr);
            }
            Ex::New(t, n) => {
                let n = self.one(n, fr)?.w;
                if n[1] | n[2] | n[3] != 0 || n[0] > 1 << 16 {
                    return Err(Halt::Revert);
                }
                let n = n[0] as usize;
                let e = match self.ty(*t).clone() {
                    Ty::Array(e) => e,
                    Ty::Dyn => {
                        return self.new_bytes(&vec![0; n]);
                    }
                    _ => return unknown("new"),
                };
                let p = self.alloc(32 + 32 * n)?;
                self.put(&p, &w(n as u64))?;
                if !matches!(self.ty(e), Ty::Uint(_) | Ty::Bytes(_) | Ty::Bool) {
                    for i in 0..n {
                        let v = self.default(e)?;
                        self.put(&w(p[0] + 32 + 32 * i as u64), &v.w)?;
                    }
                }
                return Ok(V { t: *t, w: p });
            }
            Ex::List(v) => {
                let mut vals = vec![];
                for e in v {
                    vals.push(self.one(e, fr)?);
                }
                let t = vals.iter().map(|v| v.t).find(|t| *t != LIT).unwrap_or(UINT);
                // the common type of the elements
                let t = if matches!(self.ty(t), Ty::Uint(_)) { vals.iter().filter(|v| v.t != LIT).map(|v| v.t).max_by_key(|t| if let Ty::Uint(n) = self.ty(*t) { *n } else { 0 }).unwrap_or(UINT) } else { t };
                let f = match self.u.types.iter().position(|x| *x == Ty::Fixed(t, vals.len())) {
                    Some(f) => f as T,
                    None => return unknown("array literal"),
                };
                let p = self.alloc(32 * vals.len())?;
                for (i, v) in vals.into_iter().enumerate() {
                    let v = self.convert(v, t, false)?;
                    self.put(&w(p[0] + 32 * i as u64), &v.w)?;
                }
                return Ok(V { t: f, w: p });
            }
            _ => {}
        }
        let v = self.many(e, fr)?;
        if v.len() != 1 {
            return unknown("number of values");
        }
        Ok(v[0])
    }
    fn slot(&mut self, b: V, i: V) -> M<(W, T)> {
        let (t, n, skip) = match self.ty(b.t).clone() {
            Ty::Array(t) => (t, self.get(&b.w)?, 32),
            Ty::Fixed(t, n) => (t, w(n as u64), 0),
            _ => return unknown("index"),
        };
        if !yul::less(&i.w, &n) || i.w[0] > 1 << 20 {
            return Err(Halt::Revert);
        }
        Ok((w(b.w[0] + skip + 32 * i.w[0]), t))
    }
    fn field(&mut self, v: V, s: S) -> M<(W, T)> {
        if let Ty::Struct(d) = self.ty(v.t) {
            if let Some(i) = self.u.structs[*d].fields.iter().position(|f| f.0 == s) {
                return Ok((w(v.w[0] + 32 * i as u64), self.u.structs[*d].fields[i].1));
            }
        }
        unknown(format!("field {}", self.u.names[s as usize]))
    }
    fn assign(&mut self, to: &Ex, v: V, fr: &mut Frame) -> M<V> {
        match to {
            Ex::Id(s) => {
                if let Some(i) = fr.vars.iter().rposition(|x| x.0 == *s) {
                    let v = self.convert(v, fr.vars[i].1.t, false)?;
                    fr.vars[i].1 = v;
                    return Ok(v);
                }
                if let Some(old) = self.building.get(s).cloned() {
                    let v = self.convert(v, old.t, false)?;
                    self.building.insert(*s, v);
                    return Ok(v);
                }
                unknown(format!("assignment to {}", self.u.names[*s as usize]))
            }
            Ex::Index(b, i) => {
                let b = self.one(b, fr)?;
                let i = self.one(i, fr)?;
                let (p, t) = self.slot(b, i)?;
                let v = self.convert(v, t, false)?;
                self.put(&p, &v.w)?;
                Ok(v)
            }
            Ex::Member(b, s) => {
                let b = self.one(b, fr)?;
                let (p, t) = self.field(b, *s)?;
                let v = self.convert(v, t, false)?;
                self.put(&p, &v.w)?;
                Ok(v)
            }
            _ => unknown("assignment"),
        }
    }
    fn op(&mut self, op: &str, a: V, b: V) -> M<V> {
        // shifts keep the type of the left side
        if op == "<<" || op == ">>" {
            let x = yul::shift(&a.w, &b.w, op == "<<");
            return Ok(V { t: a.t, w: self.clean(x, a.t) });
        }
        let t = if a.t == b.t {
            a.t
        } else {
            match (self.ty(a.t), self.ty(b.t)) {
                (Ty::Lit, _) if self.fits(a, b.t) => b.t,
                (_, Ty::Lit) if self.fits(b, a.t) => a.t,
                (Ty::Lit, Ty::Uint(_)) | (Ty::Uint(_), Ty::Lit) => UINT,
                (Ty::Uint(x), Ty::Uint(y)) | (Ty::Bytes(x), Ty::Bytes(y)) => {
                    if x >= y {
                        a.t
                    } else {
                        b.t
                    }
                }
                (x, y) => return unknown(format!("operands {:?} {} {:?}", x, op, y)),
            }
        };
        let (x, y) = (self.convert(a, t, true)?.w, self.convert(b, t, true)?.w);
        let truth = |b: bool| Ok(V { t: BOOL, w: w(b as u64) });
        let r = match op {
            "==" => return truth(x == y),
            "!=" => return truth(x != y),
            "<" => return truth(yul::less(&x, &y)),
            ">" => return truth(yul::less(&y, &x)),
            "<=" => return truth(!yul::less(&y, &x)),
            ">=" => return truth(!yul::less(&x, &y)),
            "+" => yul::add(&x, &y).0,
            "-" => yul::sub(&x, &y),
            "*" => {
                let r = yul::wide_mul(&x, &y);
                [r[0], r[1], r[2], r[3]]
            }
            "/" | "%" => {
                if yul::is_zero(&y) {
                    return Err(Halt::Revert);
                }
                let (q, m) = yul::divide(&x, &y);
                if op == "/" {
                    q
                } else {
                    m
                }
            }
            "&" => [x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]],
            "|" => [x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]],
            "^" => [x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]],
            "**" => {
                let mut r = w(1);
                for i in (0..256).rev() {
                    let q = yul::wide_mul(&r, &r);
                    r = [q[0], q[1], q[2], q[3]];
                    if y[i / 64] >> (i % 64) & 1 == 1 {
                        let q = yul::wide_mul(&r, &x);
                        r = [q[0], q[1], q[2], q[3]];
                    }
                }
                r
            }
            _ => return unknown(format!("operator {}", op)),
        };
        Ok(V { t, w: self.clean(r, t) })
    }
    fn list(&mut self, a: &[Ex], fr: &mut Frame) -> M<Vec<V>> {
        let mut v = vec![];
        for e in a {
            v.push(self.one(e, fr)?);
        }
        Ok(v)
    }
    fn pick(&self, c: Vec<Rc<Fun>>, args: &[V]) -> Option<Rc<Fun>> {
        c.into_iter().find(|f| f.params.len() == args.len() && f.params.iter().zip(args).all(|(p, v)| self.fits(*v, p.0)))
    }
    fn many(&mut self, e: &Ex, fr: &mut Frame) -> M<Vec<V>> {
        self.tick()?;
        match e {
            Ex::Tuple(v) => {
                let mut r = vec![];
                for e in v {
                    match e {
                        Some(e) => r.push(self.one(e, fr)?),
                        None => return unknown("empty tuple entry"),
                    }
                }
                Ok(r)
            }
            Ex::Assign(op, a, b) if op.is_empty() => {
                if let Ex::Tuple(to) = &**a {
                    let v = self.many(b, fr)?;
                    if v.len() != to.len() {
                        return unknown("number of values");
                    }
                    // memory values are read before anything is written
                    for (t, v) in to.iter().zip(v) {
                        if let Some(t) = t {
                            self.assign(t, v, fr)?;
                        }
                    }
                    return Ok(vec![]);
                }
                Ok(vec![self.one(e, fr)?])
            }
            Ex::Cond(c, a, b) => {
                if self.truth(c, fr)? {
                    self.many(a, fr)
                } else {
                    self.many(b, fr)
                }
            }
            Ex::Named(f, named) => {
                let s = match &**f {
                    Ex::Id(s) | Ex::Member(_, s) => *s,
                    _ => return unknown("named call"),
                };
                let d = match self.u.struct_of.get(&s) {
                    Some(d) => *d,
                    None => return unknown("named call"),
                };
                let fields: Vec<(S, T)> = self.u.structs[d].fields.clone();
                if fields.len() != named.len() {
                    return unknown("fields");
                }
                let mut vals = vec![None; fields.len()];
                for (n, e) in named {
                    let i = match fields.iter().position(|f| f.0 == *n) {
                        Some(i) => i,
                        None => return unknown("field"),
                    };
                    let v = self.one(e, fr)?;
                    vals[i] = Some(self.convert(v, fields[i].1, false)?);
                }
                Ok(vec![self.build(d, vals.into_iter().map(|v| v.unwrap()).collect())?])
            }
            Ex::Call(f, args) => self.calling(f, args, fr),
            Ex::Type(_) => unknown("type as value"),
            _ => Ok(vec![self.one(e, fr)?]),
        }
    }
    fn build(&mut self, d: usize, vals: Vec<V>) -> M<V> {
        let p = self.alloc(32 * vals.len())?;
        for (i, v) in vals.iter().enumerate() {
            self.put(&w(p[0] + 32 * i as u64), &v.w)?;
        }
        match self.u.types.iter().position(|x| *x == Ty::Struct(d)) {
            Some(t) => Ok(V { t: t as T, w: p }),
            None => unknown("struct type"),
        }
    }
    fn calling(&mut self, f: &Ex, args: &[Ex], fr: &mut Frame) -> M<Vec<V>> {
        let u = self.u;
        match f {
            Ex::Type(t) => {
                if args.len() != 1 {
                    return unknown("conversion");
                }
                let v = self.one(&args[0], fr)?;
                Ok(vec![self.convert(v, *t, true)?])
            }
            Ex::Id(s) => {
                let n = u.names[*s as usize].as_str();
                match n {
                    "require" | "assert" => {
                        if args.is_empty() {
                            return unknown("require");
                        }
                        if !self.truth(&args[0], fr)? {
                            if let Some(Ex::Str(t)) = args.get(1) {
                                self.ch.reason.replace(String::from_utf8_lossy(t).into_owned());
                            }
                            return Err(Halt::Revert);
                        }
                        return Ok(vec![]);
                    }
                    "revert" => return Err(Halt::Revert),
                    "gasleft" => return Ok(vec![V { t: UINT, w: w(1 << 40) }]),
                    "keccak256" => {
                        let v = self.list(args, fr)?;
                        if v.len() != 1 || v[0].t != DYN {
                            return unknown("keccak256");
                        }
                        let b = self.bytes_at(&v[0].w)?;
                        return Ok(vec![V { t: B32, w: yul::word(&crate::protocol::keccak(&[&b])) }]);
                    }
                    "mulmod" | "addmod" => {
                        let v = self.list(args, fr)?;
                        if v.len() != 3 {
                            return unknown(n);
                        }
                        if yul::is_zero(&v[2].w) {
                            return Err(Halt::Revert);
                        }
                        let x = if n == "mulmod" { yul::mulmod(&v[0].w, &v[1].w, &v[2].w) } else { yul::addmod(&v[0].w, &v[1].w, &v[2].w) };
                        return Ok(vec![V { t: UINT, w: x }]);
                    }
                    _ => {}
                }
                if let Some(d) = u.struct_of.get(s) {
                    return Ok(vec![self.positional(*d, args, fr)?]);
                }
                if let Some(c) = u.con_of.get(s) {
                    let v = self.list(args, fr)?;
                    let t = match u.types.iter().position(|x| *x == Ty::Contract(*c)) {
                        Some(t) => t as T,
                        None => return unknown("contract type"),
                    };
                    return Ok(vec![self.convert(v[0], t, true)?]);
                }
                let v = self.list(args, fr)?;
                let mut found = u.find(self.con, *s);
                if u.find(fr.con, *s).len() > 0 && !u.cons[self.con].lin.contains(&fr.con) {
                    // inside a library
                    found = u.find(fr.con, *s);
                }
                match self.pick(found, &v) {
                    Some(f) => self.invoke(&f, v),
                    None => unknown(format!("function {}", n)),
                }
            }
            Ex::Member(b, s) => {
                let n = u.names[*s as usize].as_str();
                if let Ex::Id(l) = &**b {
                    if !self.is_var(*l, fr) {
                        if u.names[*l as usize] == "abi" {
                            return self.abi(n, args, fr);
                        }
                        if let Some(c) = u.con_of.get(l) {
                            if let Some(d) = u.struct_of.get(s) {
                                return Ok(vec![self.positional(*d, args, fr)?]);
                            }
                            let v = self.list(args, fr)?;
                            return match self.pick(u.find(*c, *s), &v) {
                                Some(f) => self.invoke(&f, v),
                                None => unknown(format!("function {}", n)),
                            };
                        }
                    }
                }
                let me = self.one(b, fr)?;
                if let Ty::Contract(c) = self.ty(me.t).clone() {
                    let v = self.list(args, fr)?;
                    let f = match self.pick(u.find(c, *s), &v) {
                        Some(f) => f,
                        None => return unknown(format!("function {}", n)),
                    };
                    let mut given = vec![];
                    for (p, x) in f.params.iter().zip(v) {
                        let x = self.convert(x, p.0, false)?;
                        given.push(self.extract(x)?);
                    }
                    let r = self.ch.call(&me.w, n, &given)?;
                    if r.len() != f.rets.len() {
                        return unknown("values of a call");
                    }
                    let mut out = vec![];
                    for (o, p) in r.iter().zip(&f.rets) {
                        out.push(self.insert(o, p.0)?);
                    }
                    return Ok(out);
                }
                // attached functions
                let mut v = vec![me];
                v.extend(self.list(args, fr)?);
                let mut found = vec![];
                for c in u.cons[fr.con].lin.iter().chain(u.cons[self.con].lin.iter()) {
                    for l in &u.cons[*c].using {
                        if let Some(l) = u.con_of.get(l) {
                            found.extend(u.find(*l, *s));
                        }
                    }
                }
                match self.pick(found, &v) {
                    Some(f) => self.invoke(&f, v),
                    None => unknown(format!("attached function {}", n)),
                }
            }
            _ => unknown("call"),
        }
    }
    fn positional(&mut self, d: usize, args: &[Ex], fr: &mut Frame) -> M<V> {
        let v = self.list(args, fr)?;
        let fields: Vec<T> = self.u.structs[d].fields.iter().map(|f| f.1).collect();
        if fields.len() != v.len() {
            return unknown(format!("fields of {}", self.u.structs[d].name));
        }
        let mut vals = vec![];
        for (v, t) in v.into_iter().zip(fields) {
            vals.push(self.convert(v, t, false)?);
        }
        self.build(d, vals)
    }
    fn abi(&mut self, n: &str, args: &[Ex], fr: &mut Frame) -> M<Vec<V>> {
        match n {
            "encodePacked" => {
                let v = self.list(args, fr)?;
                let mut b = vec![];
                for x in v {
                    match self.ty(x.t).clone() {
                        Ty::Uint(n) => b.extend_from_slice(&yul::bytes(&x.w)[32 - n as usize / 8..]),
                        Ty::Bytes(n) => b.extend_from_slice(&yul::bytes(&x.w)[..n as usize]),
                        Ty::Bool => b.push(x.w[0] as u8),
                        Ty::Dyn => b.extend(self.bytes_at(&x.w)?),
                        Ty::Text => b.extend_from_slice(&self.texts[x.w[0] as usize].clone()),
                        Ty::Array(e) if matches!(self.ty(e), Ty::Uint(_) | Ty::Bytes(_)) => {
                            let n = self.len(&x.w)?;
                            let i = self.span(&w(x.w[0] + 32), 32 * n)?;
                            b.extend_from_slice(&self.mem[i..i + 32 * n].to_vec());
                        }
                        t => return unknown(format!("packing of {:?}", t)),
                    }
                }
                Ok(vec![self.new_bytes(&b)?])
            }
            "decode" => {
                let v = self.one(&args[0], fr)?;
                let b = self.bytes_at(&v.w)?;
                let s = match args.get(1) {
                    Some(Ex::Id(s)) | Some(Ex::Member(_, s)) => *s,
                    _ => return unknown("decoding"),
                };
                let d = match self.u.struct_of.get(&s) {
                    Some(d) => *d,
                    None => return unknown("decoding"),
                };
                let mut vals = vec![];
                for (i, (_, t)) in self.u.structs[d].fields.iter().enumerate() {
                    if !matches!(self.ty(*t), Ty::Uint(_) | Ty::Bytes(_) | Ty::Bool) {
                        return unknown("decoding");
                    }
                    if b.len() < 32 * i + 32 {
                        return Err(Halt::Revert);
                    }
                    vals.push(self.insert(&Own::Word(yul::word(&b[32 * i..])), *t)?);
                }
                Ok(vec![self.build(d, vals)?])
            }
            _ => unknown(format!("abi.{}", n)),
        }
    }
}
fn low(x: W, n: u32) -> W {
    if n >= 256 {
        return x;
    }
    let s = w(256 - n as u64);
    yul::shift(&yul::shift(&x, &s, true), &s, false)
}
fn high(x: W, n: u32) -> W {
    if n >= 256 {
        return x;
    }
    let s = w(256 - n as u64);
    yul::shift(&yul::shift(&x, &s, false), &s, true)
}
const _: T = ADDRESS;
