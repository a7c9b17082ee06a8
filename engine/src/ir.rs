//! Textual LLVM IR: modules are indexed quickly, function bodies are parsed
//! when they are first executed.

use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock, RwLock};

pub type Reg = u32;
pub type Sym = u32;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    FOther,
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Label,
    Meta,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::FOther => 16,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => ((*n as u64) * (*w as u64) + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            _ => 0,
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Void,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(Reg),
    Int(i128),
    F(f64),
    Null,
    Undef,
    Zero,
    Sym(Sym),
    Agg(Vec<(Ty, Op)>),
    Bytes(Vec<u8>),
    /// base symbol/op + byte offset
    Off(Box<Op>, i64),
    Bin(BinOp, Box<Op>, Box<Op>, u32),
    Trunc(Box<Op>, u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    /// remainder of floor division (used where only `== 0` is observed)
    FRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Reg, BinOp, Ty, Op, Op),
    FBin(Reg, FOp, Ty, Op, Op),
    FNeg(Reg, Ty, Op),
    ICmp(Reg, Pred, Ty, Op, Op),
    /// predicate as text: oeq, olt, une, ...
    FCmp(Reg, &'static str, Ty, Op, Op),
    Select(Reg, Op, Ty, Op, Op),
    Phi(Reg, Ty, Vec<(Op, u32)>),
    Call { dst: Option<Reg>, ret: Ty, callee: Op, args: Vec<(Ty, Op)>, normal: Option<u32> },
    Load(Reg, Ty, Op),
    Store(Ty, Op, Op),
    Alloca(Reg, u64, u64),
    Gep(Reg, Op, i64, Vec<(Op, u32, i64)>),
    Cast(Reg, Cast, Ty, Ty, Op),
    Extract(Reg, Op, Vec<u32>),
    Insert(Reg, Ty, Op, Ty, Op, Vec<u32>),
    ExtractElem(Reg, Op, Op),
    InsertElem(Reg, Ty, Op, Op, Op),
    Shuffle(Reg, Ty, Op, Op, Vec<i64>),
    Freeze(Reg, Ty, Op),
    AtomicRmw(Reg, String, Op, Ty, Op),
    CmpXchg(Reg, Op, Ty, Op, Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(i128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
    pub nphi: usize,
    /// joining block of a small pure region that only computes truth values
    pub join: Option<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, Reg)>,
    pub ret: Ty,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ninsts: usize,
}

pub struct FuncSrc {
    pub head: (usize, usize),
    pub body: (usize, usize),
    pub cell: OnceLock<Result<Arc<Func>, String>>,
}
pub struct GlobalSrc {
    pub line: (usize, usize),
    pub local: bool,
}
pub struct Module {
    pub name: String,
    pub text: String,
    pub funcs: HashMap<String, FuncSrc>,
    pub globals: HashMap<String, GlobalSrc>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, String>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Func(usize, String),
    Global(usize, String),
    Extern,
}
#[derive(Clone, Debug)]
pub struct SymInfo {
    pub name: String,
    pub module: usize,
    pub kind: Kind,
    pub addr: u64,
    pub size: u64,
    pub tls: bool,
    pub constant: bool,
}

pub struct Program {
    pub modules: Vec<Module>,
    exports: HashMap<String, (usize, bool)>, // module, is_func
    pub syms: RwLock<Vec<Arc<SymInfo>>>,
    intern: Mutex<SymTab>,
}
struct SymTab {
    by_key: HashMap<(usize, String), Sym>,
    next_addr: u64,
}

pub const FUNC_BASE: u64 = 0x10_0000_0000;
pub const GLOBAL_BASE: u64 = 0x20_0000_0000;

impl Program {
    pub fn load(paths: &[(String, String)]) -> Result<Program, String> {
        let mut modules = vec![];
        let mut exports = HashMap::new();
        for (i, (name, p)) in paths.iter().enumerate() {
            let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p, e))?;
            let m = index_module(name, text);
            for (f, s) in &m.funcs {
                let h = &m.text[s.head.0..s.head.1];
                if !h.contains(" internal ") && !h.contains(" private ") {
                    exports.entry(f.clone()).or_insert((i, true));
                }
            }
            for (g, s) in &m.globals {
                if !s.local {
                    exports.entry(g.clone()).or_insert((i, false));
                }
            }
            for g in m.aliases.keys() {
                exports.entry(g.clone()).or_insert((i, true));
            }
            modules.push(m);
        }
        Ok(Program {
            modules,
            exports,
            syms: RwLock::new(vec![]),
            intern: Mutex::new(SymTab { by_key: HashMap::new(), next_addr: GLOBAL_BASE }),
        })
    }

    pub fn sym(&self, module: usize, name: &str) -> Sym {
        let (kind, owner, cname) = self.lookup(module, name);
        let key = match &kind {
            Kind::Extern => (usize::MAX, cname.clone()),
            _ => (owner, cname.clone()),
        };
        {
            let t = self.intern.lock().unwrap();
            if let Some(&s) = t.by_key.get(&key) {
                return s;
            }
        }
        // compute size outside of the lock
        let (size, align, tls, constant) = match &kind {
            Kind::Global(m, n) => self.global_layout(*m, n),
            _ => (0, 1, false, true),
        };
        let mut t = self.intern.lock().unwrap();
        if let Some(&s) = t.by_key.get(&key) {
            return s;
        }
        let mut syms = self.syms.write().unwrap();
        let id = syms.len() as Sym;
        let addr = match &kind {
            Kind::Global(..) => {
                let a = align.max(16);
                let x = (t.next_addr + a - 1) / a * a;
                t.next_addr = x + size + 32;
                x
            }
            _ => FUNC_BASE + id as u64 * 16,
        };
        syms.push(Arc::new(SymInfo {
            name: cname.clone(),
            module: owner,
            kind,
            addr,
            size,
            tls,
            constant,
        }));
        t.by_key.insert(key, id);
        id
    }

    pub fn info(&self, s: Sym) -> Arc<SymInfo> {
        self.syms.read().unwrap()[s as usize].clone()
    }

    fn lookup(&self, module: usize, name: &str) -> (Kind, usize, String) {
        let mut module = module;
        let mut name = name.to_string();
        for _ in 0..8 {
            if module < self.modules.len() {
                let m = &self.modules[module];
                if let Some(a) = m.aliases.get(&name) {
                    name = a.clone();
                    continue;
                }
                if m.funcs.contains_key(&name) {
                    return (Kind::Func(module, name.clone()), module, name);
                }
                if m.globals.contains_key(&name) {
                    return (Kind::Global(module, name.clone()), module, name);
                }
            }
            match self.exports.get(&name) {
                Some(&(i, _)) if i != module => module = i,
                _ => break,
            }
        }
        (Kind::Extern, usize::MAX, name)
    }

    pub fn func(&self, m: usize, name: &str) -> Result<Arc<Func>, String> {
        let md = &self.modules[m];
        let src = &md.funcs[name];
        src.cell
            .get_or_init(|| parse_func(self, m, name, src).map(Arc::new))
            .clone()
    }

    fn global_layout(&self, m: usize, name: &str) -> (u64, u64, bool, bool) {
        let md = &self.modules[m];
        let g = &md.globals[name];
        let line = &md.text[g.line.0..g.line.1];
        let mut p = Parser::new(self, m, line);
        let tls = line.contains("thread_local");
        match p.global_header() {
            Ok((constant, ty)) => {
                let mut align = ty.align();
                if let Some(i) = line.rfind(", align ") {
                    let s: String =
                        line[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(a) = s.parse() {
                        align = a;
                    }
                }
                (ty.size(), align, tls, constant)
            }
            Err(_) => (8, 8, tls, true),
        }
    }
    /// Type and initialiser of a global.
    pub fn global_init(&self, m: usize, name: &str) -> Result<(Ty, Option<Op>), String> {
        let md = &self.modules[m];
        let g = &md.globals[name];
        let line = &md.text[g.line.0..g.line.1];
        let mut p = Parser::new(self, m, line);
        let (_, ty) = p.global_header()?;
        if line.contains(" external ") {
            return Ok((ty, None));
        }
        let v = p.value(&ty)?;
        Ok((ty, Some(v)))
    }
    pub fn find_export(&self, name: &str) -> Option<Sym> {
        let &(m, _) = self.exports.get(name)?;
        Some(self.sym(m, name))
    }
}

fn ident_at(s: &str) -> (String, usize) {
    // s starts just after @ or %
    let b = s.as_bytes();
    if !b.is_empty() && b[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        return (s[1..e].to_string(), e + 1);
    }
    let n = b
        .iter()
        .position(|c| !(c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')))
        .unwrap_or(b.len());
    (s[..n].to_string(), n)
}

fn index_module(name: &str, text: String) -> Module {
    let mut funcs = HashMap::new();
    let mut globals = HashMap::new();
    let mut aliases = HashMap::new();
    let mut types = HashMap::new();
    let mut pos = 0;
    let bytes = text.as_bytes();
    let len = text.len();
    while pos < len {
        let end = memchr(bytes, pos, b'\n');
        let line = &text[pos..end];
        if line.starts_with("define ") {
            let at = line.find('@').unwrap();
            let (n, _) = ident_at(&line[at + 1..]);
            // body until a line that is exactly "}"
            let mut p = end + 1;
            loop {
                let e = memchr(bytes, p, b'\n');
                if e - p == 1 && bytes[p] == b'}' {
                    funcs.insert(
                        n,
                        FuncSrc { head: (pos, end), body: (end + 1, p), cell: OnceLock::new() },
                    );
                    pos = e + 1;
                    break;
                }
                p = e + 1;
                if p >= len {
                    pos = len;
                    break;
                }
            }
            continue;
        }
        if line.starts_with('@') {
            let (n, _) = ident_at(&line[1..]);
            let rest = &line[n.len() + 1..];
            if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ")
            {
                if let Some(i) = line.rfind('@') {
                    let (t, _) = ident_at(&line[i + 1..]);
                    aliases.insert(n, t);
                }
            } else {
                let head: String = line.chars().take(400).collect();
                let local = head.contains("= internal ") || head.contains("= private ");
                // declarations without initialiser
                let ext = head.contains("= external ") || head.contains("= extern_weak ");
                if !ext {
                    globals.insert(n, GlobalSrc { line: (pos, end), local });
                }
            }
        } else if line.starts_with('%') && line.contains(" = type ") {
            let (n, _) = ident_at(&line[1..]);
            let i = line.find(" = type ").unwrap() + 8;
            types.insert(n, line[i..].to_string());
        }
        pos = end + 1;
    }
    Module { name: name.to_string(), text, funcs, globals, aliases, types }
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Id(String),
    Int(i128),
    F(f64),
    Str(Vec<u8>),
    P(char),
    Meta,
    AttrG,
    End,
}

struct Parser<'a> {
    prog: &'a Program,
    m: usize,
    s: &'a [u8],
    i: usize,
    tok: Tok,
    regs: HashMap<String, Reg>,
}

type R<T> = Result<T, String>;

impl<'a> Parser<'a> {
    fn new(prog: &'a Program, m: usize, s: &'a str) -> Parser<'a> {
        let mut p = Parser { prog, m, s: s.as_bytes(), i: 0, tok: Tok::End, regs: HashMap::new() };
        p.next();
        p
    }
    fn set(&mut self, s: &'a str) {
        self.s = s.as_bytes();
        self.i = 0;
        self.next();
    }
    fn reg(&mut self, n: &str) -> Reg {
        let k = self.regs.len() as Reg;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn next(&mut self) -> Tok {
        let nt = self.lex();
        std::mem::replace(&mut self.tok, nt)
    }
    fn lex(&mut self) -> Tok {
        let s = self.s;
        while self.i < s.len() && (s[self.i] == b' ' || s[self.i] == b'\n' || s[self.i] == b'\t') {
            self.i += 1;
        }
        if self.i >= s.len() {
            return Tok::End;
        }
        let c = s[self.i];
        let rest = unsafe { std::str::from_utf8_unchecked(&s[self.i..]) };
        match c {
            b';' => {
                while self.i < s.len() && s[self.i] != b'\n' {
                    self.i += 1;
                }
                self.lex()
            }
            b'%' => {
                let (n, l) = ident_at(&rest[1..]);
                self.i += 1 + l;
                Tok::Local(n)
            }
            b'@' => {
                let (n, l) = ident_at(&rest[1..]);
                self.i += 1 + l;
                Tok::Global(n)
            }
            b'!' => {
                self.i += 1;
                let (_, l) = ident_at(&rest[1..]);
                self.i += l;
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                let (_, l) = ident_at(&rest[1..]);
                self.i += l;
                Tok::AttrG
            }
            b'c' if s.len() > self.i + 1 && s[self.i + 1] == b'"' => {
                self.i += 2;
                Tok::Str(self.strbody())
            }
            b'"' => {
                self.i += 1;
                let b = self.strbody();
                Tok::Id(String::from_utf8_lossy(&b).into_owned())
            }
            b'-' | b'+' if special_float(&rest[1..]).is_some() => {
                let (v, n) = special_float(&rest[1..]).unwrap();
                self.i += 1 + n;
                Tok::F(if c == b'-' { -v } else { v })
            }
            b'-' | b'0'..=b'9' => self.number(rest),
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let (n, l) = ident_at(rest);
                if n == "f0x" || (n.starts_with("f0x")) {
                    self.i += l;
                    let v = u64::from_str_radix(&n[3..], 16).unwrap_or(0);
                    return Tok::F(f64::from_bits(v));
                }
                self.i += l;
                Tok::Id(n)
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    fn strbody(&mut self) -> Vec<u8> {
        let mut out = vec![];
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b'"' {
                self.i += 1;
                break;
            }
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
                continue;
            }
            out.push(c);
            self.i += 1;
        }
        out
    }
    fn number(&mut self, rest: &str) -> Tok {
        let b = rest.as_bytes();
        if rest.starts_with("0x") {
            let n = b[2..].iter().position(|c| !c.is_ascii_hexdigit()).unwrap_or(b.len() - 2);
            self.i += 2 + n;
            let v = u64::from_str_radix(&rest[2..2 + n], 16).unwrap_or(0);
            return Tok::F(f64::from_bits(v));
        }
        let mut n = 1;
        let mut fl = false;
        while n < b.len() {
            let c = b[n];
            if c.is_ascii_digit() {
                n += 1;
            } else if c == b'.' || ((c == b'e' || c == b'E') && fl) {
                fl = true;
                n += 1;
            } else if (c == b'+' || c == b'-') && (b[n - 1] == b'e' || b[n - 1] == b'E') {
                n += 1;
            } else {
                break;
            }
        }
        self.i += n;
        if fl {
            Tok::F(rest[..n].parse().unwrap_or(f64::NAN))
        } else {
            Tok::Int(match rest[..n].parse::<i128>() {
                Ok(v) => v,
                Err(_) => rest[..n].parse::<u128>().unwrap_or(0) as i128,
            })
        }
    }
    fn is_p(&self, c: char) -> bool {
        self.tok == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} at ...{}", c, self.tok, self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(60);
        String::from_utf8_lossy(&self.s[a..(self.i + 20).min(self.s.len())]).into_owned()
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(&self.tok, Tok::Id(x) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> R<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            t => Err(format!("expected identifier, got {:?} at {}", t, self.ctx())),
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next() {
            Tok::Int(v) => Ok(v),
            t => Err(format!("expected int got {:?} at {}", t, self.ctx())),
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.want('(')?;
                        self.next();
                        self.want(')')?;
                    }
                    Ty::Ptr
                }
                "double" => Ty::F64,
                "float" => Ty::F32,
                "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::FOther,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" => Ty::Meta,
                "opaque" => Ty::Opaque,
                _ if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    Ty::Int(s[1..].parse().map_err(|_| "int type".to_string())?)
                }
                _ => return Err(format!("type {:?} at {}", s, self.ctx())),
            },
            Tok::P('[') => {
                let n = self.int()? as u64;
                if !self.eat_id("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.want(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    v.push(self.ty()?);
                    self.eat_p(',');
                }
                self.want('}')?;
                Ty::Struct(v, false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    while !self.is_p('}') {
                        v.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.want('}')?;
                    self.want('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.int()? as u32;
                    if !self.eat_id("x") {
                        return Err("x".into());
                    }
                    let t = self.ty()?;
                    self.want('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::Local(n) => {
                let md = &self.prog.modules[self.m];
                match md.types.get(&n) {
                    Some(t) => {
                        let mut p = Parser::new(self.prog, self.m, t);
                        p.ty()?
                    }
                    None => Ty::Opaque,
                }
            }
            t => return Err(format!("type token {:?} at {}", t, self.ctx())),
        };
        // function type: ret (args)
        if self.is_p('(') && false {
            self.balanced()?;
        }
        Ok(t)
    }

    fn balanced(&mut self) -> R<()> {
        // current token is an opening bracket
        let mut d = 0;
        loop {
            match &self.tok {
                Tok::P('(') | Tok::P('[') | Tok::P('{') => d += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') => d -= 1,
                Tok::End => return Err("unbalanced".into()),
                _ => {}
            }
            self.next();
            if d == 0 {
                return Ok(());
            }
        }
    }

    fn is_value_start(&self) -> bool {
        match &self.tok {
            Tok::Local(_) | Tok::Global(_) | Tok::Int(_) | Tok::F(_) | Tok::Str(_) => true,
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Id(s) => matches!(
                s.as_str(),
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                    | "getelementptr" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "add"
                    | "sub" | "mul" | "trunc" | "xor" | "splat" | "addrspacecast" | "nan" | "inf"
            ),
            _ => false,
        }
    }
    /// Skips parameter / return attributes.
    fn attrs(&mut self) -> R<()> {
        loop {
            if self.is_value_start() {
                return Ok(());
            }
            match &self.tok {
                Tok::Id(s) => {
                    let al = s == "align";
                    self.next();
                    if al {
                        if let Tok::Int(_) = self.tok {
                            self.next();
                            continue;
                        }
                    }
                    if self.is_p('(') {
                        self.balanced()?;
                    } else if self.is_p('=') {
                        self.next();
                        self.next();
                    }
                }
                _ => return Ok(()),
            }
        }
    }

    fn value(&mut self, ty: &Ty) -> R<Op> {
        Ok(match self.next() {
            Tok::Local(n) => Op::Reg(self.reg(&n)),
            Tok::Global(n) => Op::Sym(self.prog.sym(self.m, &n)),
            Tok::Int(v) => match ty {
                Ty::F64 | Ty::F32 => Op::F(v as f64),
                _ => Op::Int(v),
            },
            Tok::F(f) => match ty {
                Ty::F32 => Op::F(f), // printed as double bits
                _ => Op::F(f),
            },
            Tok::Str(b) => Op::Bytes(b),
            Tok::P('[') => {
                let mut v = vec![];
                while !self.is_p(']') {
                    let t = self.ty()?;
                    let x = self.value(&t)?;
                    v.push((t, x));
                    self.eat_p(',');
                }
                self.want(']')?;
                Op::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    let t = self.ty()?;
                    let x = self.value(&t)?;
                    v.push((t, x));
                    self.eat_p(',');
                }
                self.want('}')?;
                Op::Agg(v)
            }
            Tok::P('<') => {
                let mut v = vec![];
                let st = self.eat_p('{');
                let close = if st { '}' } else { '>' };
                while !self.is_p(close) {
                    let t = self.ty()?;
                    let x = self.value(&t)?;
                    v.push((t, x));
                    self.eat_p(',');
                }
                self.want(close)?;
                if st {
                    self.want('>')?;
                }
                Op::Agg(v)
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Op::Int(1),
                "false" => Op::Int(0),
                "null" => Op::Null,
                "undef" | "poison" => Op::Undef,
                "zeroinitializer" => Op::Zero,
                "none" => Op::Zero,
                "splat" => {
                    self.want('(')?;
                    let t = self.ty()?;
                    let v = self.value(&t)?;
                    self.want(')')?;
                    let n = match ty {
                        Ty::Vec(n, _) => *n as usize,
                        Ty::Arr(n, _) => *n as usize,
                        _ => return Err("splat".into()),
                    };
                    Op::Agg(vec![(t, v); n])
                }
                "getelementptr" => {
                    while matches!(&self.tok, Tok::Id(_)) {
                        // inbounds nuw nusw inrange(...)
                        let inr = self.is_id("inrange");
                        self.next();
                        if inr && self.is_p('(') {
                            self.balanced()?;
                        }
                    }
                    self.want('(')?;
                    let t = self.ty()?;
                    self.want(',')?;
                    let pt = self.ty()?;
                    let base = self.value(&pt)?;
                    let mut off = 0i64;
                    let mut cur = t;
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let v = match self.value(&it)? {
                            Op::Int(v) => v as i64,
                            Op::Zero => 0,
                            o => return Err(format!("gep const index {:?}", o)),
                        };
                        if first {
                            off += v * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.offset(v as usize) as i64;
                            cur = cur.field(v as usize);
                        }
                    }
                    self.want(')')?;
                    Op::Off(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" | "trunc" => {
                    self.want('(')?;
                    let t = self.ty()?;
                    let v = self.value(&t)?;
                    if !self.eat_id("to") {
                        return Err("to".into());
                    }
                    let t2 = self.ty()?;
                    self.want(')')?;
                    if s == "trunc" || t2.bits() < t.bits() {
                        Op::Trunc(Box::new(v), t2.bits())
                    } else {
                        v
                    }
                }
                "add" | "sub" | "mul" | "xor" => {
                    while matches!(&self.tok, Tok::Id(_)) {
                        self.next();
                    }
                    self.want('(')?;
                    let t = self.ty()?;
                    let a = self.value(&t)?;
                    self.want(',')?;
                    let t2 = self.ty()?;
                    let b = self.value(&t2)?;
                    self.want(')')?;
                    let o = match s.as_str() {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        _ => BinOp::Xor,
                    };
                    Op::Bin(o, Box::new(a), Box::new(b), t.bits())
                }
                "nan" | "qnan" | "snan" => Op::F(f64::NAN),
                "inf" => Op::F(f64::INFINITY),
                _ => return Err(format!("value {:?} at {}", s, self.ctx())),
            },
            t => return Err(format!("value token {:?} at {}", t, self.ctx())),
        })
    }
    fn tyval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs()?;
        let v = self.value(&t)?;
        Ok((t, v))
    }

    fn global_header(&mut self) -> R<(bool, Ty)> {
        // @name = <linkage...> global|constant <ty> <init>
        self.next();
        self.want('=')?;
        loop {
            match self.next() {
                Tok::Id(s) if s == "global" => {
                    let t = self.ty()?;
                    return Ok((false, t));
                }
                Tok::Id(s) if s == "constant" => {
                    let t = self.ty()?;
                    return Ok((true, t));
                }
                Tok::P('(') => {
                    while !self.eat_p(')') {
                        self.next();
                    }
                }
                Tok::End => return Err("global header".into()),
                _ => {}
            }
        }
    }
}

fn fpred(s: &str) -> &'static str {
    for p in [
        "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une",
        "uno", "true", "false",
    ] {
        if p == s {
            return p;
        }
    }
    "?"
}

fn parse_func(prog: &Program, m: usize, name: &str, src: &FuncSrc) -> R<Func> {
    let text = &prog.modules[m].text;
    let head = &text[src.head.0..src.head.1];
    let body = &text[src.body.0..src.body.1];
    // ---- header ----
    let at = head.find('@').unwrap();
    // return type: parse tokens before '@', skipping linkage words and attributes
    let pre = &head["define ".len()..at];
    let mut p = Parser::new(prog, m, pre);
    let mut ret = Ty::Void;
    loop {
        match &p.tok {
            Tok::End => break,
            Tok::Id(s)
                if s == "void"
                    || s == "ptr"
                    || s == "double"
                    || s == "float"
                    || s == "half"
                    || s == "fp128"
                    || (s.starts_with('i')
                        && s.len() > 1
                        && s[1..].bytes().all(|c| c.is_ascii_digit())) =>
            {
                ret = p.ty()?;
                break;
            }
            Tok::Id(_) => {
                p.next();
                if p.is_p('(') {
                    p.balanced()?;
                }
            }
            Tok::P('{') | Tok::P('[') | Tok::P('<') => {
                ret = p.ty()?;
                break;
            }
            _ => {
                p.next();
            }
        }
    }
    let regs = std::mem::take(&mut p.regs);
    let _ = regs;
    let mut p = Parser::new(prog, m, &head[at..]);
    p.next();
    p.want('(')?;
    let mut params = vec![];
    let mut unnamed = 0;
    while !p.is_p(')') {
        if p.is_p('.') || p.is_id("...") {
            p.next();
            continue;
        }
        let t = p.ty()?;
        p.attrs()?;
        let n = match &p.tok {
            Tok::Local(n) => {
                let n = n.clone();
                p.next();
                n
            }
            _ => {
                let n = format!("{}", unnamed);
                n
            }
        };
        if n.bytes().all(|c| c.is_ascii_digit()) {
            unnamed += 1;
        }
        let r = p.reg(&n);
        params.push((t, r));
        p.eat_p(',');
    }
    // ---- split body into logical lines ----
    let mut blocks: Vec<Block> = vec![];
    let mut lines: Vec<(usize, String)> = vec![]; // (block index, line)
    let mut depth = 0i32;
    let mut cur = String::new();
    let mut block_names: HashMap<String, u32> = HashMap::new();
    for raw in body.lines() {
        let t = raw.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        if depth == 0 && !raw.starts_with(' ') {
            // label
            let n = if t.starts_with('"') {
                t[1..].split('"').next().unwrap().to_string()
            } else {
                t.split(':').next().unwrap().to_string()
            };
            block_names.insert(n.clone(), blocks.len() as u32);
            blocks.push(Block { name: n, insts: vec![], nphi: 0, join: None });
            continue;
        }
        if blocks.is_empty() {
            // implicit entry block (numbered)
            let n = format!("{}", unnamed);
            block_names.insert(n.clone(), 0);
            blocks.push(Block { name: n, insts: vec![], nphi: 0, join: None });
        }
        let cont = depth > 0
            || t.starts_with("to label")
            || t.starts_with("unwind label")
            || t == "cleanup"
            || t.starts_with("cleanup ")
            || t.starts_with("catch ")
            || t.starts_with("filter ");
        if cont && !cur.is_empty() {
            cur.push(' ');
            cur.push_str(t);
        } else {
            if !cur.is_empty() {
                lines.push((0, std::mem::take(&mut cur)));
            }
            cur = t.to_string();
        }
        depth = 0;
        let mut inq = false;
        for c in cur.bytes() {
            match c {
                b'"' => inq = !inq,
                b'[' | b'(' | b'{' if !inq => depth += 1,
                b']' | b')' | b'}' if !inq => depth -= 1,
                b';' if !inq => break,
                _ => {}
            }
        }
        if depth == 0 {
            // peek handled by cont on the next line: push lazily
            let bi = blocks.len() - 1;
            lines.push((bi, std::mem::take(&mut cur)));
        }
    }
    // re-join invoke continuation lines
    let mut joined: Vec<(usize, String)> = vec![];
    for (b, l) in lines {
        let t = l.trim_start();
        if t.starts_with("to label")
            || t.starts_with("unwind label")
            || t == "cleanup"
            || t.starts_with("catch ")
            || t.starts_with("filter ")
        {
            if let Some(x) = joined.last_mut() {
                x.1.push(' ');
                x.1.push_str(t);
            }
        } else {
            joined.push((b, l));
        }
    }
    let mut ninsts = 0;
    let joined: &'static Vec<(usize, String)> = unsafe { std::mem::transmute(&joined) };
    for (b, l) in joined.iter() {
        p.set(l);
        let inst = match parse_inst(&mut p, &block_names) {
            Ok(i) => i,
            Err(e) => Inst::Unsupported(format!("{} :: {}", e, l)),
        };
        ninsts += 1;
        if let Inst::Phi(..) = inst {
            blocks[*b].nphi += 1;
        }
        blocks[*b].insts.push(inst);
    }
    let nregs = p.regs.len();
    zero_rems(&mut blocks);
    find_joins(&mut blocks);
    Ok(Func { name: name.to_string(), params, ret, nregs, blocks, ninsts })
}

fn parse_inst(p: &mut Parser, bl: &HashMap<String, u32>) -> R<Inst> {
    let mut dst: Option<Reg> = None;
    if let Tok::Local(n) = p.tok.clone() {
        p.next();
        p.want('=')?;
        dst = Some(p.reg(&n));
    }
    let mut op = p.id()?;
    if op == "tail" || op == "musttail" || op == "notail" {
        op = p.id()?;
    }
    let d = || dst.ok_or_else(|| "no dst".to_string());
    let lab = |p: &mut Parser| -> R<u32> {
        if !p.eat_id("label") {
            return Err(format!("label at {}", p.ctx()));
        }
        match p.next() {
            Tok::Local(n) => bl.get(&n).copied().ok_or(format!("block {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    };
    let flags = |p: &mut Parser| {
        while let Tok::Id(s) = &p.tok {
            if matches!(
                s.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan"
                    | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds"
                    | "nusw" | "volatile" | "atomic" | "unordered"
            ) {
                p.next();
            } else {
                break;
            }
        }
    };
    let bin = |s: &str| {
        Some(match s {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            _ => return None,
        })
    };
    if let Some(b) = bin(&op) {
        flags(p);
        let t = p.ty()?;
        let x = p.value(&t)?;
        p.want(',')?;
        let y = p.value(&t)?;
        return Ok(Inst::Bin(d()?, b, t, x, y));
    }
    let fb = match op.as_str() {
        "fadd" => Some(FOp::Add),
        "fsub" => Some(FOp::Sub),
        "fmul" => Some(FOp::Mul),
        "fdiv" => Some(FOp::Div),
        "frem" => Some(FOp::Rem),
        _ => None,
    };
    if let Some(b) = fb {
        flags(p);
        let t = p.ty()?;
        let x = p.value(&t)?;
        p.want(',')?;
        let y = p.value(&t)?;
        return Ok(Inst::FBin(d()?, b, t, x, y));
    }
    let cast = match op.as_str() {
        "trunc" => Some(Cast::Trunc),
        "zext" => Some(Cast::ZExt),
        "sext" => Some(Cast::SExt),
        "fptoui" => Some(Cast::FpToUi),
        "fptosi" => Some(Cast::FpToSi),
        "uitofp" => Some(Cast::UiToFp),
        "sitofp" => Some(Cast::SiToFp),
        "fptrunc" => Some(Cast::FpTrunc),
        "fpext" => Some(Cast::FpExt),
        "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
        "inttoptr" => Some(Cast::IntToPtr),
        "bitcast" | "addrspacecast" => Some(Cast::Bitcast),
        _ => None,
    };
    if let Some(c) = cast {
        flags(p);
        let t = p.ty()?;
        let v = p.value(&t)?;
        if !p.eat_id("to") {
            return Err("cast to".into());
        }
        let t2 = p.ty()?;
        return Ok(Inst::Cast(d()?, c, t, t2, v));
    }
    match op.as_str() {
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                Ok(Inst::Ret(t, None))
            } else {
                let v = p.value(&t)?;
                Ok(Inst::Ret(t, Some(v)))
            }
        }
        "br" => {
            if p.is_id("label") {
                Ok(Inst::Br(lab(p)?))
            } else {
                let t = p.ty()?;
                let c = p.value(&t)?;
                p.want(',')?;
                let a = lab(p)?;
                p.want(',')?;
                let b = lab(p)?;
                Ok(Inst::CondBr(c, a, b))
            }
        }
        "switch" => {
            let t = p.ty()?;
            let v = p.value(&t)?;
            p.want(',')?;
            let def = lab(p)?;
            p.want('[')?;
            let mut cs = vec![];
            while !p.is_p(']') {
                let ct = p.ty()?;
                let c = match p.value(&ct)? {
                    Op::Int(c) => c,
                    Op::Zero | Op::Null => 0,
                    _ => return Err("switch case".into()),
                };
                p.want(',')?;
                cs.push((c, lab(p)?));
            }
            Ok(Inst::Switch(t, v, def, cs))
        }
        "unreachable" => Ok(Inst::Unreachable),
        "resume" => Ok(Inst::Unreachable),
        "landingpad" => Ok(Inst::Unsupported("landingpad".into())),
        "fneg" => {
            flags(p);
            let t = p.ty()?;
            let v = p.value(&t)?;
            Ok(Inst::FNeg(d()?, t, v))
        }
        "icmp" => {
            flags(p);
            let pr = match p.id()?.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => return Err(format!("icmp {}", x)),
            };
            let t = p.ty()?;
            let x = p.value(&t)?;
            p.want(',')?;
            let y = p.value(&t)?;
            Ok(Inst::ICmp(d()?, pr, t, x, y))
        }
        "fcmp" => {
            flags(p);
            let pr = fpred(&p.id()?);
            let t = p.ty()?;
            let x = p.value(&t)?;
            p.want(',')?;
            let y = p.value(&t)?;
            Ok(Inst::FCmp(d()?, pr, t, x, y))
        }
        "select" => {
            flags(p);
            let ct = p.ty()?;
            if let Ty::Vec(..) = ct {
                return Err("vector select".into());
            }
            let c = p.value(&ct)?;
            p.want(',')?;
            let t = p.ty()?;
            let x = p.value(&t)?;
            p.want(',')?;
            let t2 = p.ty()?;
            let y = p.value(&t2)?;
            Ok(Inst::Select(d()?, c, t, x, y))
        }
        "phi" => {
            flags(p);
            let t = p.ty()?;
            let mut v = vec![];
            while p.eat_p('[') {
                let x = p.value(&t)?;
                p.want(',')?;
                let b = match p.next() {
                    Tok::Local(n) => *bl.get(&n).ok_or(format!("phi block {}", n))?,
                    t => return Err(format!("phi {:?}", t)),
                };
                p.want(']')?;
                v.push((x, b));
                if !p.eat_p(',') {
                    break;
                }
            }
            Ok(Inst::Phi(d()?, t, v))
        }
        "call" | "invoke" => {
            // fast-math flags, cconv, ret attrs
            loop {
                match &p.tok {
                    Tok::Id(s)
                        if s == "void"
                            || s == "ptr"
                            || s == "double"
                            || s == "float"
                            || s == "half"
                            || s == "fp128"
                            || s == "metadata"
                            || (s.starts_with('i')
                                && s.len() > 1
                                && s[1..].bytes().all(|c| c.is_ascii_digit())) =>
                    {
                        break
                    }
                    Tok::Id(s) => {
                        let al = s == "align";
                        p.next();
                        if al {
                            p.next();
                        } else if p.is_p('(') {
                            p.balanced()?;
                        }
                    }
                    _ => break,
                }
            }
            let ret = p.ty()?;
            if p.is_p('(') {
                p.balanced()?; // function type of a varargs call
            }
            if p.is_id("asm") {
                // asm sideeffect "..", "..."(args)
                return Ok(if let Some(r) = dst {
                    let _ = r;
                    Inst::Unsupported("asm".into())
                } else {
                    Inst::Nop
                });
            }
            let callee = p.value(&Ty::Ptr)?;
            p.want('(')?;
            let mut args = vec![];
            while !p.is_p(')') {
                let t = p.ty()?;
                if t == Ty::Meta {
                    // skip metadata operand
                    p.next();
                    if p.is_p('(') || p.is_p('{') {
                        p.balanced()?;
                    }
                    args.push((Ty::Meta, Op::Undef));
                } else {
                    p.attrs()?;
                    let v = p.value(&t)?;
                    args.push((t, v));
                }
                if !p.eat_p(',') {
                    break;
                }
            }
            p.want(')')?;
            let mut normal = None;
            if op == "invoke" {
                while !p.is_id("to") {
                    if p.tok == Tok::End {
                        return Err("invoke".into());
                    }
                    p.next();
                }
                p.next();
                normal = Some(lab(p)?);
            }
            Ok(Inst::Call { dst, ret, callee, args, normal })
        }
        "load" => {
            flags(p);
            let t = p.ty()?;
            p.want(',')?;
            let pt = p.ty()?;
            let a = p.value(&pt)?;
            Ok(Inst::Load(d()?, t, a))
        }
        "store" => {
            flags(p);
            let t = p.ty()?;
            let v = p.value(&t)?;
            p.want(',')?;
            let pt = p.ty()?;
            let a = p.value(&pt)?;
            Ok(Inst::Store(t, v, a))
        }
        "alloca" => {
            let t = p.ty()?;
            let mut n = 1u64;
            let mut al = t.align();
            while p.eat_p(',') {
                if p.eat_id("align") {
                    al = p.int()? as u64;
                } else if let Tok::Meta = p.tok {
                    break;
                } else {
                    let it = p.ty()?;
                    match p.value(&it)? {
                        Op::Int(k) => n = k as u64,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
            }
            Ok(Inst::Alloca(d()?, t.size() * n, al))
        }
        "getelementptr" => {
            flags(p);
            let t = p.ty()?;
            p.want(',')?;
            let pt = p.ty()?;
            let base = p.value(&pt)?;
            let mut off = 0i64;
            let mut vars = vec![];
            let mut cur = t;
            let mut first = true;
            while p.eat_p(',') {
                if let Tok::Meta = p.tok {
                    break;
                }
                let it = p.ty()?;
                let v = p.value(&it)?;
                let scale = if first { cur.size() as i64 } else { 0 };
                match v {
                    Op::Int(k) => {
                        if first {
                            off += k as i64 * scale;
                        } else {
                            off += match &cur {
                                Ty::Arr(_, t) => k as i64 * t.size() as i64,
                                _ => cur.offset(k as usize) as i64,
                            };
                            cur = cur.field(k as usize);
                        }
                    }
                    Op::Zero => {
                        if !first {
                            cur = cur.field(0);
                        }
                    }
                    v => {
                        if first {
                            vars.push((v, it.bits(), scale));
                        } else {
                            let e = cur.field(0);
                            vars.push((v, it.bits(), e.size() as i64));
                            cur = e;
                        }
                    }
                }
                first = false;
            }
            Ok(Inst::Gep(d()?, base, off, vars))
        }
        "extractvalue" => {
            let (_, v) = p.tyval()?;
            let mut idx = vec![];
            while p.eat_p(',') {
                if let Tok::Int(k) = p.tok {
                    p.next();
                    idx.push(k as u32);
                } else {
                    break;
                }
            }
            Ok(Inst::Extract(d()?, v, idx))
        }
        "insertvalue" => {
            let (t, v) = p.tyval()?;
            p.want(',')?;
            let (t2, x) = p.tyval()?;
            let mut idx = vec![];
            while p.eat_p(',') {
                if let Tok::Int(k) = p.tok {
                    p.next();
                    idx.push(k as u32);
                } else {
                    break;
                }
            }
            Ok(Inst::Insert(d()?, t, v, t2, x, idx))
        }
        "extractelement" => {
            let (_, v) = p.tyval()?;
            p.want(',')?;
            let (_, i) = p.tyval()?;
            Ok(Inst::ExtractElem(d()?, v, i))
        }
        "insertelement" => {
            let (t, v) = p.tyval()?;
            p.want(',')?;
            let (_, x) = p.tyval()?;
            p.want(',')?;
            let (_, i) = p.tyval()?;
            Ok(Inst::InsertElem(d()?, t, v, x, i))
        }
        "shufflevector" => {
            let (t, a) = p.tyval()?;
            p.want(',')?;
            let (_, b) = p.tyval()?;
            p.want(',')?;
            let (mt, mv) = p.tyval()?;
            let n = match mt {
                Ty::Vec(n, _) => n as usize,
                _ => return Err("shuffle".into()),
            };
            let mask = match mv {
                Op::Zero => vec![0; n],
                Op::Undef => vec![-1; n],
                Op::Agg(v) => v
                    .iter()
                    .map(|x| match x.1 {
                        Op::Int(k) => k as i64,
                        _ => -1,
                    })
                    .collect(),
                _ => return Err("shuffle mask".into()),
            };
            Ok(Inst::Shuffle(d()?, t, a, b, mask))
        }
        "freeze" => {
            let (t, v) = p.tyval()?;
            Ok(Inst::Freeze(d()?, t, v))
        }
        "fence" => Ok(Inst::Nop),
        "atomicrmw" => {
            flags(p);
            let o = p.id()?;
            let (_, a) = p.tyval()?;
            p.want(',')?;
            let (t, v) = p.tyval()?;
            Ok(Inst::AtomicRmw(d()?, o, a, t, v))
        }
        "cmpxchg" => {
            while p.eat_id("weak") || p.eat_id("volatile") {}
            let (_, a) = p.tyval()?;
            p.want(',')?;
            let (t, e) = p.tyval()?;
            p.want(',')?;
            let (_, n) = p.tyval()?;
            Ok(Inst::CmpXchg(d()?, a, t, e, n))
        }
        _ => Err(format!("instruction {}", op)),
    }
}

/// `inf`, `qnan`, `nan(0x..)`, `snan(0x..)` after a sign.
fn special_float(s: &str) -> Option<(f64, usize)> {
    if s.starts_with("inf") {
        return Some((f64::INFINITY, 3));
    }
    for p in ["qnan", "snan", "nan"] {
        if s.starts_with(p) {
            let mut n = p.len();
            if s[n..].starts_with('(') {
                n += s[n..].find(')')? + 1;
            }
            return Some((f64::NAN, n));
        }
    }
    None
}

fn op_regs(o: &Op, f: &mut dyn FnMut(Reg)) {
    match o {
        Op::Reg(r) => f(*r),
        Op::Agg(v) => v.iter().for_each(|x| op_regs(&x.1, f)),
        Op::Off(b, _) | Op::Trunc(b, _) => op_regs(b, f),
        Op::Bin(_, a, b, _) => {
            op_regs(a, f);
            op_regs(b, f);
        }
        _ => {}
    }
}
fn uses(i: &Inst, f: &mut dyn FnMut(Reg)) {
    use Inst::*;
    let mut ops: Vec<&Op> = vec![];
    match i {
        Bin(_, _, _, a, b) | FBin(_, _, _, a, b) | ICmp(_, _, _, a, b) | FCmp(_, _, _, a, b) => ops.extend([a, b]),
        FNeg(_, _, a) | Load(_, _, a) | Cast(_, _, _, _, a) | Extract(_, a, _) | Freeze(_, _, a) | CondBr(a, _, _)
        | Switch(_, a, _, _) => ops.push(a),
        Select(_, a, _, b, c) => ops.extend([a, b, c]),
        Phi(_, _, v) => ops.extend(v.iter().map(|x| &x.0)),
        Call { callee, args, .. } => {
            ops.push(callee);
            ops.extend(args.iter().map(|x| &x.1));
        }
        Store(_, a, b) => ops.extend([a, b]),
        Gep(_, a, _, v) => {
            ops.push(a);
            ops.extend(v.iter().map(|x| &x.0));
        }
        Insert(_, _, a, _, b, _) => ops.extend([a, b]),
        ExtractElem(_, a, b) => ops.extend([a, b]),
        InsertElem(_, _, a, b, c) => ops.extend([a, b, c]),
        Shuffle(_, _, a, b, _) => ops.extend([a, b]),
        AtomicRmw(_, _, a, _, b) => ops.extend([a, b]),
        CmpXchg(_, a, _, b, c) => ops.extend([a, b, c]),
        Ret(_, Some(a)) => ops.push(a),
        _ => {}
    }
    for o in ops {
        op_regs(o, f);
    }
}
/// `srem x, k` whose every use is a comparison with zero.
fn zero_rems(blocks: &mut [Block]) {
    let mut cand: HashMap<Reg, bool> = HashMap::new();
    for b in blocks.iter() {
        for i in &b.insts {
            if let Inst::Bin(d, BinOp::SRem, Ty::Int(_), _, Op::Int(k)) = i {
                if *k > 0 {
                    cand.insert(*d, true);
                }
            }
        }
    }
    if cand.is_empty() {
        return;
    }
    for b in blocks.iter() {
        for i in &b.insts {
            let zero_cmp = matches!(i, Inst::ICmp(_, Pred::Eq | Pred::Ne, _, Op::Reg(_), Op::Int(0) | Op::Zero));
            if !zero_cmp {
                uses(i, &mut |r| {
                    cand.insert(r, false);
                });
            }
        }
    }
    for b in blocks.iter_mut() {
        for i in b.insts.iter_mut() {
            if let Inst::Bin(d, op @ BinOp::SRem, _, _, _) = i {
                if cand.get(d) == Some(&true) {
                    *op = BinOp::FRem;
                }
            }
        }
    }
}
fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(Inst::Br(x)) => vec![*x],
        Some(Inst::CondBr(_, x, y)) => vec![*x, *y],
        Some(Inst::Switch(_, _, d, v)) => std::iter::once(*d).chain(v.iter().map(|x| x.1)).collect(),
        Some(Inst::Call { normal: Some(n), .. }) => vec![*n],
        _ => vec![],
    }
}
fn pure_block(b: &Block) -> bool {
    b.nphi == 0
        && b.insts.len() <= 8
        && b.insts.iter().enumerate().all(|(i, x)| match x {
            Inst::Bin(_, op, Ty::Int(_), _, y) => match op {
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => matches!(y, Op::Int(k) if *k > 0),
                _ => true,
            },
            Inst::ICmp(_, _, Ty::Int(_), _, _) | Inst::Nop | Inst::Freeze(..) => true,
            Inst::Cast(_, Cast::Trunc | Cast::ZExt | Cast::SExt, _, _, _) => true,
            Inst::Br(_) | Inst::CondBr(..) => i + 1 == b.insts.len(),
            _ => false,
        })
}
fn find_joins(blocks: &mut [Block]) {
    let n = blocks.len();
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, b) in blocks.iter().enumerate() {
        for s in succs(b) {
            preds[s as usize].push(i as u32);
        }
    }
    for i in 0..n {
        if !matches!(blocks[i].insts.last(), Some(Inst::CondBr(_, a, b)) if a != b) {
            continue;
        }
        // candidates: blocks with truth-value phis reachable through pure blocks
        let mut cands: Vec<u32> = vec![];
        let mut seen: Vec<u32> = succs(&blocks[i]);
        let mut k = 0;
        while k < seen.len() && k < 12 {
            let b = seen[k];
            k += 1;
            let bl = &blocks[b as usize];
            if bl.nphi > 0 {
                cands.push(b);
            } else if pure_block(bl) {
                for s in succs(bl) {
                    if !seen.contains(&s) {
                        seen.push(s);
                    }
                }
            }
        }
        'cand: for j in cands {
            let jb = &blocks[j as usize];
            if j as usize == i
                || !(0..jb.nphi).all(|q| matches!(&jb.insts[q], Inst::Phi(_, Ty::Int(1) | Ty::Int(8), _)))
            {
                continue;
            }
            let mut inside: Vec<u32> = vec![];
            let mut work: Vec<u32> = succs(&blocks[i]);
            while let Some(b) = work.pop() {
                if b == j || inside.contains(&b) {
                    continue;
                }
                if b as usize == i || !pure_block(&blocks[b as usize]) || inside.len() >= 8 {
                    continue 'cand;
                }
                inside.push(b);
                work.extend(succs(&blocks[b as usize]));
            }
            if inside.iter().any(|b| preds[*b as usize].iter().any(|p| *p as usize != i && !inside.contains(p))) {
                continue;
            }
            // acyclic: every path from i reaches j within |inside|+1 steps
            fn acyc(blocks: &[Block], b: u32, j: u32, d: usize) -> bool {
                b == j || (d > 0 && succs(&blocks[b as usize]).iter().all(|s| acyc(blocks, *s, j, d - 1)))
            }
            if succs(&blocks[i]).iter().all(|s| acyc(blocks, *s, j, 8)) {
                blocks[i].join = Some(j);
                break;
            }
        }
    }
}
