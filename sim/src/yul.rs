//! A small machine for the assembly blocks of generated contracts: parser and evaluator with memory, call data
//! and the modular exponentiation precompile. Calls fail on command.
use crate::field::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type W = [u64; 4];

pub fn w(x: u64) -> W {
    [x, 0, 0, 0]
}
pub fn is_zero(a: &W) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn less(a: &W, b: &W) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
pub fn add(a: &W, b: &W) -> (W, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn sub(a: &W, b: &W) -> W {
    let mut r = [0; 4];
    let mut c = 0u64;
    for i in 0..4 {
        let (x, p) = a[i].overflowing_sub(b[i]);
        let (x, q) = x.overflowing_sub(c);
        r[i] = x;
        c = (p | q) as u64;
    }
    r
}
/// 8 limbs modulo m
fn reduce(x: &[u64; 8], m: &W) -> W {
    if is_zero(m) {
        return [0; 4];
    }
    let mut r: W = [0; 4];
    for i in (0..512).rev() {
        let top = r[3] >> 63;
        r = add(&r, &r).0;
        r[0] |= x[i / 64] >> (i % 64) & 1;
        if top == 1 || !less(&r, m) {
            r = sub(&r, m);
        }
    }
    r
}
pub fn wide_mul(a: &W, b: &W) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 4] = c as u64;
    }
    r
}
pub fn mulmod(a: &W, b: &W, m: &W) -> W {
    if *m == P {
        return (residue(a) * residue(b)).to_raw();
    }
    reduce(&wide_mul(a, b), m)
}
fn below_p(x: &W) -> W {
    let mut x = *x;
    while !less(&x, &P) {
        x = sub(&x, &P);
    }
    x
}
fn residue(x: &W) -> F {
    F::from_raw(below_p(x))
}
pub fn addmod(a: &W, b: &W, m: &W) -> W {
    if *m == P {
        return below_p(&add(&below_p(a), &below_p(b)).0);
    }
    let (s, c) = add(a, b);
    reduce(&[s[0], s[1], s[2], s[3], c as u64, 0, 0, 0], m)
}
pub fn powmod(b: &W, e: &W, m: &W) -> W {
    if *m == P {
        let (mut r, b) = (F::one(), residue(b));
        for i in (0..256).rev() {
            r = r * r;
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r * b;
            }
        }
        return r.to_raw();
    }
    let mut r = reduce(&[1, 0, 0, 0, 0, 0, 0, 0], m);
    for i in (0..256).rev() {
        r = mulmod(&r, &r, m);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mulmod(&r, b, m);
        }
    }
    r
}
pub fn divide(a: &W, b: &W) -> (W, W) {
    if is_zero(b) {
        return ([0; 4], [0; 4]);
    }
    if a[1] | a[2] | a[3] | b[1] | b[2] | b[3] == 0 {
        return (w(a[0] / b[0]), w(a[0] % b[0]));
    }
    let (mut q, mut r) = ([0u64; 4], [0u64; 4]);
    for i in (0..256).rev() {
        let top = r[3] >> 63;
        r = add(&r, &r).0;
        r[0] |= a[i / 64] >> (i % 64) & 1;
        if top == 1 || !less(&r, b) {
            r = sub(&r, b);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, r)
}
pub fn shift(a: &W, n: &W, left: bool) -> W {
    if n[1] | n[2] | n[3] != 0 || n[0] > 255 {
        return [0; 4];
    }
    let (limbs, bits) = (n[0] as usize / 64, n[0] % 64);
    let mut r = [0u64; 4];
    for i in 0..4usize {
        if left {
            if i >= limbs {
                r[i] = a[i - limbs] << bits;
                if bits > 0 && i > limbs {
                    r[i] |= a[i - limbs - 1] >> (64 - bits);
                }
            }
        } else if i + limbs < 4 {
            r[i] = a[i + limbs] >> bits;
            if bits > 0 && i + limbs + 1 < 4 {
                r[i] |= a[i + limbs + 1] << (64 - bits);
            }
        }
    }
    r
}
pub fn bytes(a: &W) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&a[3 - i].to_be_bytes());
    }
    r
}
pub fn word(b: &[u8]) -> W {
    let mut x = [0u8; 32];
    let n = b.len().min(32);
    x[..n].copy_from_slice(&b[..n]);
    let mut r = [0; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes([x[8 * i], x[8 * i + 1], x[8 * i + 2], x[8 * i + 3], x[8 * i + 4], x[8 * i + 5], x[8 * i + 6], x[8 * i + 7]]);
    }
    r
}

// ---------------------------------------------------------------- syntax
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(W),
    Sym(&'static str),
}
pub fn number(s: &str) -> Option<W> {
    let mut r = [0u64; 4];
    let (digits, base) = if let Some(h) = s.strip_prefix("0x") { (h, 16u32) } else { (s, 10) };
    if digits.is_empty() {
        return None;
    }
    for c in digits.chars() {
        let d = c.to_digit(base)?;
        let m = wide_mul(&r, &w(base as u64));
        if m[4] != 0 {
            return None;
        }
        let (x, o) = add(&[m[0], m[1], m[2], m[3]], &w(d as u64));
        if o {
            return None;
        }
        r = x;
    }
    Some(r)
}
fn tokens(src: &str) -> Result<Vec<Tok>, String> {
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c.is_ascii_alphabetic() || c == '_' || c == '$' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_' || b[i] == '$') {
                i += 1;
            }
            out.push(Tok::Id(b[s..i].iter().collect()));
        } else if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            let t: String = b[s..i].iter().collect();
            out.push(Tok::Num(number(&t).ok_or(format!("number {}", t))?));
        } else if c == ':' && b.get(i + 1) == Some(&'=') {
            out.push(Tok::Sym(":="));
            i += 2;
        } else if c == '-' && b.get(i + 1) == Some(&'>') {
            out.push(Tok::Sym("->"));
            i += 2;
        } else {
            out.push(Tok::Sym(match c {
                '{' => "{",
                '}' => "}",
                '(' => "(",
                ')' => ")",
                ',' => ",",
                _ => return Err(format!("character {:?}", c)),
            }));
            i += 1;
        }
    }
    Ok(out)
}
#[derive(Debug)]
enum Ex {
    Num(W),
    Var(String),
    Call(String, Vec<Ex>),
}
#[derive(Debug)]
enum St {
    Block(Vec<St>),
    Let(Vec<String>, Option<Ex>),
    Set(Vec<String>, Ex),
    If(Ex, Vec<St>),
    For(Vec<St>, Ex, Vec<St>, Vec<St>),
    Switch(Ex, Vec<(W, Vec<St>)>, Option<Vec<St>>),
    Function(Rc<Fun>),
    Do(Ex),
    Break,
    Continue,
    Leave,
}
#[derive(Debug)]
struct Fun {
    name: String,
    args: Vec<String>,
    rets: Vec<String>,
    body: Vec<St>,
}
struct Parser {
    t: Vec<Tok>,
    i: usize,
}
type R<T> = Result<T, String>;
impl Parser {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn sym(&mut self, s: &'static str) -> R<()> {
        if self.peek() == Some(&Tok::Sym(s)) {
            self.i += 1;
            return Ok(());
        }
        Err(format!("expected {} at {:?}", s, &self.t[self.i..(self.i + 5).min(self.t.len())]))
    }
    fn is(&self, s: &'static str) -> bool {
        self.peek() == Some(&Tok::Sym(s))
    }
    fn id(&mut self) -> R<String> {
        match self.peek().cloned() {
            Some(Tok::Id(s)) => {
                self.i += 1;
                Ok(s)
            }
            t => Err(format!("expected a name at {:?}", t)),
        }
    }
    fn names(&mut self) -> R<Vec<String>> {
        let mut v = vec![self.id()?];
        while self.is(",") {
            self.i += 1;
            v.push(self.id()?);
        }
        Ok(v)
    }
    fn block(&mut self) -> R<Vec<St>> {
        self.sym("{")?;
        let mut v = vec![];
        while !self.is("}") {
            v.push(self.stmt()?);
        }
        self.sym("}")?;
        Ok(v)
    }
    fn expr(&mut self) -> R<Ex> {
        match self.peek().cloned() {
            Some(Tok::Num(n)) => {
                self.i += 1;
                Ok(Ex::Num(n))
            }
            Some(Tok::Id(s)) => {
                self.i += 1;
                if !self.is("(") {
                    return Ok(match s.as_str() {
                        "true" => Ex::Num(w(1)),
                        "false" => Ex::Num(w(0)),
                        _ => Ex::Var(s),
                    });
                }
                self.i += 1;
                let mut a = vec![];
                while !self.is(")") {
                    a.push(self.expr()?);
                    if !self.is(")") {
                        self.sym(",")?;
                    }
                }
                self.i += 1;
                Ok(Ex::Call(s, a))
            }
            t => Err(format!("expected an expression at {:?}", t)),
        }
    }
    fn stmt(&mut self) -> R<St> {
        if self.is("{") {
            return Ok(St::Block(self.block()?));
        }
        let word = match self.peek() {
            Some(Tok::Id(s)) => s.clone(),
            t => return Err(format!("expected a statement at {:?}", t)),
        };
        match word.as_str() {
            "let" => {
                self.i += 1;
                let n = self.names()?;
                let e = if self.is(":=") {
                    self.i += 1;
                    Some(self.expr()?)
                } else {
                    None
                };
                Ok(St::Let(n, e))
            }
            "if" => {
                self.i += 1;
                let c = self.expr()?;
                Ok(St::If(c, self.block()?))
            }
            "for" => {
                self.i += 1;
                let a = self.block()?;
                let c = self.expr()?;
                let b = self.block()?;
                Ok(St::For(a, c, b, self.block()?))
            }
            "switch" => {
                self.i += 1;
                let e = self.expr()?;
                let mut cases = vec![];
                let mut default = None;
                loop {
                    match self.peek() {
                        Some(Tok::Id(s)) if s == "case" => {
                            self.i += 1;
                            let n = match self.expr()? {
                                Ex::Num(n) => n,
                                _ => return Err("case".into()),
                            };
                            cases.push((n, self.block()?));
                        }
                        Some(Tok::Id(s)) if s == "default" => {
                            self.i += 1;
                            default = Some(self.block()?);
                        }
                        _ => break,
                    }
                }
                Ok(St::Switch(e, cases, default))
            }
            "function" => {
                self.i += 1;
                let name = self.id()?;
                self.sym("(")?;
                let args = if self.is(")") { vec![] } else { self.names()? };
                self.sym(")")?;
                let rets = if self.is("->") {
                    self.i += 1;
                    self.names()?
                } else {
                    vec![]
                };
                Ok(St::Function(Rc::new(Fun { name, args, rets, body: self.block()? })))
            }
            "break" => {
                self.i += 1;
                Ok(St::Break)
            }
            "continue" => {
                self.i += 1;
                Ok(St::Continue)
            }
            "leave" => {
                self.i += 1;
                Ok(St::Leave)
            }
            _ => {
                let next = self.t.get(self.i + 1);
                if next == Some(&Tok::Sym(":=")) || next == Some(&Tok::Sym(",")) {
                    let n = self.names()?;
                    self.sym(":=")?;
                    return Ok(St::Set(n, self.expr()?));
                }
                Ok(St::Do(self.expr()?))
            }
        }
    }
}

/// The first assembly block of a contract.
#[derive(Debug)]
pub struct Program {
    body: Vec<St>,
    /// every name that occurs in it
    pub names: Vec<String>,
}
pub fn parse(contract: &str) -> R<Program> {
    let at = contract.find("assembly").ok_or("no assembly")?;
    let open = at + contract[at..].find('{').ok_or("no block")?;
    // cut the block out by counting braces (comments may hold braces in pairs only)
    let mut depth = 0;
    let mut end = None;
    for (i, c) in contract[open..].char_indices() {
        match c {
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth == 0 {
                    end = Some(open + i + 1);
                    break;
                }
            }
            _ => {}
        }
    }
    block_of(&contract[open..end.ok_or("unbalanced block")?])
}
/// An assembly block given with its braces.
pub fn block_of(src: &str) -> R<Program> {
    let mut p = Parser { t: tokens(src)?, i: 0 };
    let mut names: Vec<String> = p.t.iter().filter_map(|t| if let Tok::Id(s) = t { Some(s.clone()) } else { None }).collect();
    names.sort();
    names.dedup();
    let body = p.block()?;
    Ok(Program { body, names })
}

// ---------------------------------------------------------------- machine
enum Flow {
    Next,
    Break,
    Continue,
    Leave,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Halt {
    Revert,
    Return(Vec<u8>),
    Stuck(String),
}
pub struct Machine<'a> {
    pub calldata: &'a [u8],
    pub value: u64,
    /// precompile call with this number fails
    pub fail_call: Option<u64>,
    pub calls: u64,
    pub steps: u64,
    pub limit: u64,
    pub mem: Vec<u8>,
    /// other contracts: (address, input) -> output, None if that call fails
    pub outside: Option<Rc<dyn Fn(&W, &[u8]) -> Result<Option<Vec<u8>>, Halt> + 'a>>,
    /// constants of the surrounding contract
    pub consts: HashMap<String, W>,
    vars: Vec<HashMap<String, W>>,
    funs: Vec<HashMap<String, Rc<Fun>>>,
    depth: usize,
}
type M<T> = Result<T, Halt>;
fn stuck<T>(s: impl Into<String>) -> M<T> {
    Err(Halt::Stuck(s.into()))
}
impl<'a> Machine<'a> {
    pub fn new(calldata: &'a [u8]) -> Self {
        Machine { calldata, value: 0, fail_call: None, calls: 0, steps: 0, limit: 2_000_000, mem: vec![], outside: None, consts: HashMap::new(), vars: vec![], funs: vec![], depth: 0 }
    }
    /// Runs the block; `given` are the variables in scope around it. Ok: their values at the end.
    pub fn run(&mut self, p: &Program, given: &[(&str, W)]) -> Result<HashMap<String, W>, Halt> {
        self.vars = vec![given.iter().map(|(k, v)| (k.to_string(), *v)).collect()];
        self.funs = vec![];
        self.block(&p.body)?;
        Ok(self.vars.pop().unwrap())
    }
    fn at(&mut self, a: &W, n: usize) -> M<usize> {
        if a[1] | a[2] | a[3] != 0 || a[0] > 1 << 22 {
            return stuck("memory address");
        }
        let a = a[0] as usize;
        if self.mem.len() < a + n {
            self.mem.resize(a + n, 0);
        }
        Ok(a)
    }
    fn load(&mut self, a: &W) -> M<W> {
        let i = self.at(a, 32)?;
        Ok(word(&self.mem[i..i + 32]))
    }
    fn block(&mut self, b: &[St]) -> M<Flow> {
        self.vars.push(HashMap::new());
        let f = self.open(b);
        let _ = self.vars.pop();
        let _ = self.funs.pop();
        f
    }
    fn open(&mut self, b: &[St]) -> M<Flow> {
        let mut fs = HashMap::new();
        for s in b {
            if let St::Function(f) = s {
                fs.insert(f.name.clone(), f.clone());
            }
        }
        self.funs.push(fs);
        for s in b {
            match self.stmt(s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn set(&mut self, n: &str, v: W) -> M<()> {
        for s in self.vars.iter_mut().rev() {
            if let Some(x) = s.get_mut(n) {
                *x = v;
                return Ok(());
            }
        }
        stuck(format!("assignment to unknown {}", n))
    }
    fn stmt(&mut self, s: &St) -> M<Flow> {
        self.steps += 1;
        if self.steps > self.limit {
            return stuck("out of gas");
        }
        match s {
            St::Block(b) => return self.block(b),
            St::Function(_) => {}
            St::Let(n, e) => {
                let v = match e {
                    Some(e) => self.multi(e)?,
                    None => vec![[0; 4]; n.len()],
                };
                if v.len() != n.len() {
                    return stuck("number of values");
                }
                for (n, v) in n.iter().zip(v) {
                    self.vars.last_mut().unwrap().insert(n.clone(), v);
                }
            }
            St::Set(n, e) => {
                let v = self.multi(e)?;
                if v.len() != n.len() {
                    return stuck("number of values");
                }
                for (n, v) in n.iter().zip(v) {
                    self.set(n, v)?;
                }
            }
            St::If(c, b) => {
                if !is_zero(&self.one(c)?) {
                    return self.block(b);
                }
            }
            St::Switch(e, cases, d) => {
                let v = self.one(e)?;
                if let Some((_, b)) = cases.iter().find(|c| c.0 == v) {
                    return self.block(b);
                }
                if let Some(b) = d {
                    return self.block(b);
                }
            }
            St::For(a, c, post, body) => {
                self.vars.push(HashMap::new());
                let r = (|| {
                    self.open(a)?;
                    loop {
                        self.steps += 1;
                        if self.steps > self.limit {
                            return stuck("out of gas");
                        }
                        if is_zero(&self.one(c)?) {
                            return Ok(Flow::Next);
                        }
                        match self.block(body)? {
                            Flow::Break => return Ok(Flow::Next),
                            Flow::Leave => return Ok(Flow::Leave),
                            _ => {}
                        }
                        let _ = self.block(post)?;
                    }
                })();
                let _ = self.vars.pop();
                let _ = self.funs.pop();
                return r;
            }
            St::Do(e) => {
                let _ = self.multi(e)?;
            }
            St::Break => return Ok(Flow::Break),
            St::Continue => return Ok(Flow::Continue),
            St::Leave => return Ok(Flow::Leave),
        }
        Ok(Flow::Next)
    }
    fn one(&mut self, e: &Ex) -> M<W> {
        let v = self.multi(e)?;
        if v.len() != 1 {
            return stuck("number of values");
        }
        Ok(v[0])
    }
    fn multi(&mut self, e: &Ex) -> M<Vec<W>> {
        match e {
            Ex::Num(n) => Ok(vec![*n]),
            Ex::Var(s) => {
                for v in self.vars.iter().rev() {
                    if let Some(x) = v.get(s) {
                        return Ok(vec![*x]);
                    }
                }
                if let Some(x) = self.consts.get(s) {
                    return Ok(vec![*x]);
                }
                stuck(format!("unknown {}", s))
            }
            Ex::Call(f, args) => {
                // arguments are evaluated from right to left
                let mut a = vec![[0; 4]; args.len()];
                for i in (0..args.len()).rev() {
                    a[i] = self.one(&args[i])?;
                }
                self.call(f, &a)
            }
        }
    }
    fn call(&mut self, name: &str, a: &[W]) -> M<Vec<W>> {
        let user = self.funs.iter().rev().find_map(|m| m.get(name).cloned());
        if let Some(f) = user {
            if f.args.len() != a.len() {
                return stuck(format!("arguments of {}", name));
            }
            if self.depth > 200 {
                return stuck("call depth");
            }
            let mut scope: HashMap<String, W> = f.args.iter().cloned().zip(a.iter().cloned()).collect();
            for r in &f.rets {
                scope.insert(r.clone(), [0; 4]);
            }
            let saved = std::mem::replace(&mut self.vars, vec![scope]);
            self.depth += 1;
            let r = self.block(&f.body);
            self.depth -= 1;
            let scope = std::mem::replace(&mut self.vars, saved);
            r?;
            return Ok(f.rets.iter().map(|r| scope[0][r]).collect());
        }
        let need = |n: usize| if a.len() == n { Ok(()) } else { stuck(format!("arguments of {}", name)) };
        let truth = |b: bool| w(b as u64);
        let small = |x: &W| if x[1] | x[2] | x[3] != 0 || x[0] > 1 << 22 { stuck::<usize>("size") } else { Ok(x[0] as usize) };
        let v = match name {
            "add" => {
                need(2)?;
                add(&a[0], &a[1]).0
            }
            "sub" => {
                need(2)?;
                sub(&a[0], &a[1])
            }
            "mul" => {
                need(2)?;
                let r = wide_mul(&a[0], &a[1]);
                [r[0], r[1], r[2], r[3]]
            }
            "div" => {
                need(2)?;
                divide(&a[0], &a[1]).0
            }
            "mod" => {
                need(2)?;
                divide(&a[0], &a[1]).1
            }
            "addmod" => {
                need(3)?;
                addmod(&a[0], &a[1], &a[2])
            }
            "mulmod" => {
                need(3)?;
                mulmod(&a[0], &a[1], &a[2])
            }
            "lt" => {
                need(2)?;
                truth(less(&a[0], &a[1]))
            }
            "gt" => {
                need(2)?;
                truth(less(&a[1], &a[0]))
            }
            "eq" => {
                need(2)?;
                truth(a[0] == a[1])
            }
            "iszero" => {
                need(1)?;
                truth(is_zero(&a[0]))
            }
            "and" => {
                need(2)?;
                [a[0][0] & a[1][0], a[0][1] & a[1][1], a[0][2] & a[1][2], a[0][3] & a[1][3]]
            }
            "or" => {
                need(2)?;
                [a[0][0] | a[1][0], a[0][1] | a[1][1], a[0][2] | a[1][2], a[0][3] | a[1][3]]
            }
            "xor" => {
                need(2)?;
                [a[0][0] ^ a[1][0], a[0][1] ^ a[1][1], a[0][2] ^ a[1][2], a[0][3] ^ a[1][3]]
            }
            "not" => {
                need(1)?;
                [!a[0][0], !a[0][1], !a[0][2], !a[0][3]]
            }
            "shl" => {
                need(2)?;
                shift(&a[1], &a[0], true)
            }
            "shr" => {
                need(2)?;
                shift(&a[1], &a[0], false)
            }
            "callvalue" => {
                need(0)?;
                w(self.value)
            }
            "gas" => w(1 << 40),
            "returndatasize" => {
                need(0)?;
                w(if self.calls > 0 { 32 } else { 0 })
            }
            "calldatasize" => w(self.calldata.len() as u64),
            "calldataload" => {
                need(1)?;
                if a[0][1] | a[0][2] | a[0][3] != 0 || a[0][0] as usize >= self.calldata.len() {
                    [0; 4]
                } else {
                    word(&self.calldata[a[0][0] as usize..])
                }
            }
            "calldatacopy" => {
                need(3)?;
                let n = small(&a[2])?;
                let o = self.at(&a[0], n)?;
                for j in 0..n {
                    let k = if a[1][1] | a[1][2] | a[1][3] != 0 { usize::MAX } else { (a[1][0] as usize).saturating_add(j) };
                    self.mem[o + j] = *self.calldata.get(k).unwrap_or(&0);
                }
                return Ok(vec![]);
            }
            "mload" => {
                need(1)?;
                self.load(&a[0])?
            }
            "mstore" => {
                need(2)?;
                let i = self.at(&a[0], 32)?;
                self.mem[i..i + 32].copy_from_slice(&bytes(&a[1]));
                return Ok(vec![]);
            }
            "mstore8" => {
                need(2)?;
                let i = self.at(&a[0], 1)?;
                self.mem[i] = a[1][0] as u8;
                return Ok(vec![]);
            }
            "keccak256" => {
                need(2)?;
                let n = small(&a[1])?;
                let i = self.at(&a[0], n)?;
                word(&crate::protocol::keccak(&[&self.mem[i..i + n]]))
            }
            "byte" => {
                need(2)?;
                if a[0][1] | a[0][2] | a[0][3] != 0 || a[0][0] > 31 {
                    w(0)
                } else {
                    w(bytes(&a[1])[a[0][0] as usize] as u64)
                }
            }
            "pop" => return Ok(vec![]),
            "revert" => return Err(Halt::Revert),
            "stop" => return Err(Halt::Return(vec![])),
            "return" => {
                need(2)?;
                let n = small(&a[1])?;
                let i = self.at(&a[0], n)?;
                return Err(Halt::Return(self.mem[i..i + n].to_vec()));
            }
            "call" | "staticcall" => {
                let a: Vec<W> = if name == "call" {
                    need(7)?;
                    a.to_vec()
                } else {
                    need(6)?;
                    vec![a[0], a[1], [0; 4], a[2], a[3], a[4], a[5]]
                };
                if a[1] != w(5) && is_zero(&a[2]) {
                    if let Some(f) = self.outside.clone() {
                        let (n, m) = (small(&a[4])?, small(&a[6])?);
                        let i = self.at(&a[3], n)?;
                        let input = self.mem[i..i + n].to_vec();
                        return Ok(vec![match f(&a[1], &input)? {
                            None => w(0),
                            Some(r) => {
                                let o = self.at(&a[5], m)?;
                                for (j, x) in r.iter().take(m).enumerate() {
                                    self.mem[o + j] = *x;
                                }
                                w(1)
                            }
                        }]);
                    }
                }
                if a[1] != w(5) || !is_zero(&a[2]) {
                    return stuck("call of something else than the exponentiation precompile");
                }
                let k = self.calls;
                self.calls += 1;
                if self.fail_call == Some(k) {
                    return Ok(vec![w(0)]);
                }
                let (n, m) = (small(&a[4])?, small(&a[6])?);
                let i = self.at(&a[3], n)?;
                let mut input = self.mem[i..i + n].to_vec();
                input.resize(192, 0);
                if (0..3).any(|j| word(&input[32 * j..]) != w(32)) {
                    return stuck("operand sizes of the precompile");
                }
                let r = bytes(&powmod(&word(&input[96..]), &word(&input[128..]), &word(&input[160..])));
                let o = self.at(&a[5], m)?;
                for (j, x) in r.iter().take(m).enumerate() {
                    self.mem[o + j] = *x;
                }
                w(1)
            }
            _ => return stuck(format!("unknown operation {}", name)),
        };
        Ok(vec![v])
    }
}
