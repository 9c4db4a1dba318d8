//! LLVM textual IR -> compact register bytecode. Functions are compiled lazily.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

pub type O = i32; // >=0: frame slot; <0: constant !o

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FCast {
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bi {
    Nop,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    USubSat,
    UAddSat,
    UMax,
    UMin,
    SMax,
    SMin,
    CtPop,
    CtLz,
    CtTz,
    Fshl,
    Fshr,
    Bswap,
    BitRev,
    Abs,
    UCmp,
    SCmp,
    Mov,
    IsConst,
    Trap,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    PosixMemalign,
    CRealloc,
    Panic,
    LoadRel,
    SxBits,
    SxBelow,
    SxAssume,
    SxCheck,
    SxCover,
    SxObserve,
    SxParam,
    SxVerbose,
    SxIte,
    SxFix,
    SxFail,
    SxDone,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    FToUiSat,
    FToSiSat,
    FAbs,
    FMaxNum,
    FMinNum,
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u8, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u8, d: u32, a: O, b: O },
    ZExt { d: u32, a: O, from: u8, to: u8 },
    SExt { d: u32, a: O, from: u8, to: u8 },
    Trunc { d: u32, a: O, to: u8, from: u8 },
    Mov { d: u32, a: O },
    Select { d: u32, c: O, a: O, b: O, w: u8, ptr: bool },
    Load { d: u32, p: O, off: u32, w: u8 },
    Store { v: O, p: O, off: u32, w: u8 },
    Gep0 { d: u32, base: O, off: i64 },
    Gep1 { d: u32, base: O, idx: O, iw: u8, scale: u32, off: i32 },
    GepN { d: u32, base: O, off: i64, idx: Box<[(O, u8, u64)]> },
    Alloca { d: u32, size: u64 },
    Call { f: u32, d: u32, n: u8, args: Box<[O]> },
    CallInd { f: O, d: u32, args: Box<[O]> },
    Builtin { k: Bi, d: u32, w: u8, args: Box<[O]>, name: u32 },
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u8, cases: Box<[(u128, u32)]>, def: u32 },
    Ret(Box<[O]>),
    Unreachable,
    FBin { op: FOp, w: u8, d: u32, a: O, b: O },
    FCmp { p: u8, w: u8, d: u32, a: O, b: O },
    FCast { k: FCast, from: u8, to: u8, d: u32, a: O },
    Concat { d: u32, w: u8, parts: Box<[O]> }, // parts low to high, each of width w
    Split { d: u32, w: u8, n: u32, a: O },
    AtomicRmw { op: u8, d: u32, p: O, v: O, w: u8 },
    CmpXchg { d: u32, p: O, e: O, n: O, w: u8 },
}

#[derive(Debug)]
pub struct Edge {
    pub moves: Box<[(u32, O)]>,
    pub parallel: bool,
    pub target: u32,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nslots: u32,
    pub nparams: u32,
    pub code: Vec<Ins>,
    pub edges: Vec<Edge>,
    pub consts: Vec<u128>,
}

pub struct GlobalDef {
    pub name: String,
    pub init: Option<String>, // "type init" text
    pub ty: Ty,
    pub size: u64,
    pub constant: bool,
    pub data: OnceLock<Vec<u8>>,
}

pub struct FnDef {
    pub name: String,
    pub text: Option<Box<str>>,
    pub compiled: OnceLock<Func>,
    pub builtin: Option<Bi>,
}

pub struct Program {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<GlobalDef>,
    pub gmap: HashMap<String, u32>,
    pub fns: Vec<FnDef>,
    pub fmap: HashMap<String, u32>,
}

pub const FN_BASE: u64 = 0x4000_0000_0000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    N(&'a str),
    S(&'a str),
    P(char),
    M,
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let (name, e) = if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1
                    }
                    (&s[st + 1..j], j + 1)
                } else {
                    let mut j = st;
                    while j < b.len() && isid(b[j]) {
                        j += 1
                    }
                    (&s[st..j], j)
                };
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
                i = e;
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'{' {
                    while b[i] != b'}' {
                        i += 1
                    }
                    i += 1;
                } else {
                    while i < b.len() && (isid(b[i])) {
                        i += 1
                    }
                }
                out.push(Tok::M);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                // attribute group: dropped
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::S(&s[st..j]));
                i = j + 1;
            }
            _ if c == b'-' || c.is_ascii_digit() => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E')))
                {
                    i += 1
                }
                out.push(Tok::N(&s[st..i]));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1
                }
                out.push(Tok::W(&s[st..i]));
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::W("..."));
                i += 3;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1
            }
        }
    }
    out
}

fn int_ty(w: &str) -> Option<u32> {
    if w.len() >= 2 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::W(w) => int_ty(w).is_some() || matches!(*w, "ptr" | "void" | "float" | "double" | "label" | "metadata" | "token"),
        Tok::P('{') | Tok::P('<') | Tok::P('[') => true,
        Tok::L(_) => true,
        _ => false,
    }
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size rounded up to alignment (alloc size)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up(((*w as u64) + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => {
                let bits = match **t {
                    Ty::Int(w) => w as u64,
                    Ty::F32 => 32,
                    _ => 64,
                };
                (bits * *n as u64 + 7) / 8
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("bad field")
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), t),
            _ => panic!("field of scalar"),
        }
    }
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, u32, bool)>) {
        match self {
            Ty::Int(w) => out.push((off, *w, false)),
            Ty::Ptr => out.push((off, 64, true)),
            Ty::F64 => out.push((off, 64, false)),
            Ty::F32 => out.push((off, 32, false)),
            Ty::Vec(n, t) => {
                let mut l = vec![];
                t.leaves(0, &mut l);
                let (_, w, p) = l[0];
                for i in 0..*n {
                    if w % 8 == 0 {
                        out.push((off + (i * w / 8) as u64, w, p));
                    } else {
                        out.push((u64::MAX, w, p));
                    }
                }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = self.field_off(i);
                    t.leaves(off + o, out);
                }
            }
            _ => {}
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Vec(n, _) => *n as usize,
            Ty::Arr(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            _ => 0,
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn builtin_of(name: &str) -> Option<Bi> {
    if let Some(r) = name.strip_prefix("llvm.") {
        let s = |p: &str| r.starts_with(p);
        return Some(if s("memcpy") || s("memmove") {
            Bi::Memcpy
        } else if s("memset") {
            Bi::Memset
        } else if s("uadd.with.overflow") {
            Bi::UAddO
        } else if s("usub.with.overflow") {
            Bi::USubO
        } else if s("umul.with.overflow") {
            Bi::UMulO
        } else if s("sadd.with.overflow") {
            Bi::SAddO
        } else if s("ssub.with.overflow") {
            Bi::SSubO
        } else if s("smul.with.overflow") {
            Bi::SMulO
        } else if s("usub.sat") {
            Bi::USubSat
        } else if s("uadd.sat") {
            Bi::UAddSat
        } else if s("umax.") {
            Bi::UMax
        } else if s("umin.") {
            Bi::UMin
        } else if s("smax.") {
            Bi::SMax
        } else if s("smin.") {
            Bi::SMin
        } else if s("ctpop") {
            Bi::CtPop
        } else if s("ctlz") {
            Bi::CtLz
        } else if s("cttz") {
            Bi::CtTz
        } else if s("fshl") {
            Bi::Fshl
        } else if s("fshr") {
            Bi::Fshr
        } else if s("bswap") {
            Bi::Bswap
        } else if s("bitreverse") {
            Bi::BitRev
        } else if s("abs.") {
            Bi::Abs
        } else if s("ucmp") {
            Bi::UCmp
        } else if s("scmp") {
            Bi::SCmp
        } else if s("is.constant") {
            Bi::IsConst
        } else if s("trap") || s("ubsantrap") {
            Bi::Trap
        } else if s("load.relative") {
            Bi::LoadRel
        } else if s("threadlocal.address") || s("expect") || s("ssa.copy") || s("launder") || s("strip.inv") {
            Bi::Mov
        } else if s("vector.reduce.or") {
            Bi::VecReduceOr
        } else if s("vector.reduce.and") {
            Bi::VecReduceAnd
        } else if s("vector.reduce.add") {
            Bi::VecReduceAdd
        } else if s("fptoui.sat") {
            Bi::FToUiSat
        } else if s("fptosi.sat") {
            Bi::FToSiSat
        } else if s("fabs") {
            Bi::FAbs
        } else if s("maxnum") || s("maximumnum") {
            Bi::FMaxNum
        } else if s("minnum") || s("minimumnum") {
            Bi::FMinNum
        } else if s("lifetime") || s("experimental.noalias") || s("assume") || s("dbg") || s("prefetch") || s("x86.sse2.pause") || s("invariant") || s("donothing") || s("sideeffect") || s("va_") {
            Bi::Nop
        } else {
            Bi::Unknown
        });
    }
    Some(match name {
        "memcmp" => Bi::Memcmp,
        "bcmp" => Bi::Bcmp,
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "strlen" => Bi::Strlen,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "free" => Bi::Free,
        "realloc" => Bi::CRealloc,
        "posix_memalign" => Bi::PosixMemalign,
        "sx_bits" => Bi::SxBits,
        "sx_below" => Bi::SxBelow,
        "sx_assume" => Bi::SxAssume,
        "sx_check" => Bi::SxCheck,
        "sx_cover" => Bi::SxCover,
        "sx_observe" => Bi::SxObserve,
        "sx_param" => Bi::SxParam,
        "sx_ite" => Bi::SxIte,
        "sx_verbose" => Bi::SxVerbose,
        "sx_fix" => Bi::SxFix,
        "sx_fail" => Bi::SxFail,
        "sx_done" => Bi::SxDone,
        _ => {
            if name.ends_with("___rust_alloc") {
                Bi::Alloc
            } else if name.ends_with("___rust_alloc_zeroed") {
                Bi::AllocZeroed
            } else if name.ends_with("___rust_dealloc") {
                Bi::Dealloc
            } else if name.ends_with("___rust_realloc") {
                Bi::Realloc
            } else if name.ends_with("___rust_no_alloc_shim_is_unstable_v2") || name.contains("no_alloc_shim_is_unstable") {
                Bi::Nop
            } else if name.contains("4core9panicking") || name.contains("18panic_bounds_check") || name.contains("4core6option13unwrap_failed") || name.contains("4core6option13expect_failed") || name.contains("4core6result13unwrap_failed") || name.contains("5alloc5alloc18handle_alloc_error") || name.contains("7raw_vec17capacity_overflow") || name.contains("7raw_vec12handle_error") || name.ends_with("rust_begin_unwind") || name.contains("begin_panic") {
                Bi::Panic
            } else {
                return None;
            }
        }
    })
}

impl Program {
    pub fn load(text: &str) -> Program {
        let mut p = Program {
            types: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            fns: vec![],
            fmap: HashMap::new(),
        };
        let mut pending_types: Vec<(String, String)> = vec![];
        let mut gdefs: Vec<(String, String)> = vec![];
        let mut lines = text.split_inclusive('\n');
        let mut pos = 0usize;
        let mut aliases = vec![];
        while let Some(line) = lines.next() {
            let start = pos;
            pos += line.len();
            match line.as_bytes().first() {
                Some(b'%') => {
                    if let Some((n, r)) = line.split_once(" = type ") {
                        let n = n[1..].trim_matches('"').to_string();
                        pending_types.push((n, r.to_string()));
                    }
                }
                Some(b'@') => {
                    let t = line;
                    let name = {
                        let b = t.as_bytes();
                        if b[1] == b'"' {
                            let e = t[2..].find('"').unwrap();
                            t[2..2 + e].to_string()
                        } else {
                            let e = t.find(' ').unwrap();
                            t[1..e].to_string()
                        }
                    };
                    let rest = t[t.find(" = ").unwrap() + 3..].to_string();
                    if rest.contains(" alias ") && !rest.contains(" global ") && !rest.contains(" constant ") {
                        aliases.push((name, rest));
                    } else {
                        gdefs.push((name, rest));
                    }
                }
                Some(b'd') if line.starts_with("define ") => {
                    let body_start = start;
                    let mut end = pos;
                    while let Some(l) = lines.next() {
                        pos += l.len();
                        end = pos;
                        if l.starts_with('}') {
                            break;
                        }
                    }
                    let name = fn_name(line);
                    let b = builtin_of(&name);
                    p.add_fn(name, Some(&text[body_start..end]), b);
                }
                Some(b'd') if line.starts_with("declare ") => {
                    let name = fn_name(line);
                    let b = builtin_of(&name);
                    p.add_fn(name, None, b);
                }
                _ => {}
            }
        }
        // named types may reference each other; resolve iteratively
        let mut left = pending_types;
        loop {
            let mut next = vec![];
            let before = left.len();
            for (n, r) in left {
                if r.trim_start().starts_with("opaque") {
                    p.types.insert(n, Ty::Struct(vec![], false));
                    continue;
                }
                let toks = lex(&r);
                let ok = toks.iter().all(|t| if let Tok::L(x) = t { p.types.contains_key(*x) } else { true });
                if ok {
                    let mut i = 0;
                    let t = p.ty(&toks, &mut i);
                    p.types.insert(n, t);
                } else {
                    next.push((n, r));
                }
            }
            if next.is_empty() || next.len() == before {
                break;
            }
            left = next;
        }
        for (name, rest) in gdefs {
            let toks = lex(&rest);
            let mut i = 0;
            let mut constant = false;
            let mut external = false;
            loop {
                match &toks[i] {
                    Tok::W("global") => {
                        i += 1;
                        break;
                    }
                    Tok::W("constant") => {
                        constant = true;
                        i += 1;
                        break;
                    }
                    Tok::W("external") => {
                        external = true;
                        i += 1
                    }
                    _ => i += 1,
                }
            }
            let ty = p.ty(&toks, &mut i);
            let size = ty.size();
            let id = p.globals.len() as u32;
            p.gmap.insert(name.clone(), id);
            p.globals.push(GlobalDef {
                name,
                init: if external { None } else { Some(rest) },
                ty,
                size,
                constant,
                data: OnceLock::new(),
            });
        }
        for (n, r) in aliases {
            let toks = lex(&r);
            for t in toks.iter().rev() {
                if let Tok::G(g) = t {
                    if let Some(&f) = p.fmap.get(*g) {
                        p.fmap.insert(n.clone(), f);
                    } else if let Some(&f) = p.gmap.get(*g) {
                        p.gmap.insert(n.clone(), f);
                    }
                    break;
                }
            }
        }
        p
    }
    fn add_fn(&mut self, name: String, text: Option<&str>, builtin: Option<Bi>) {
        let id = self.fns.len() as u32;
        self.fmap.insert(name.clone(), id);
        self.fns.push(FnDef { name, text: text.map(|t| t.into()), compiled: OnceLock::new(), builtin });
    }
    pub fn gaddr(&self, id: u32) -> u64 {
        ((id as u64) + 1) << 32
    }
    fn sym_addr(&self, g: &str) -> u64 {
        if let Some(&i) = self.gmap.get(g) {
            self.gaddr(i)
        } else if let Some(&f) = self.fmap.get(g) {
            FN_BASE | ((f as u64) << 4)
        } else {
            panic!("unknown global {}", g)
        }
    }
    pub fn global_data(&self, id: u32) -> &Vec<u8> {
        let g = &self.globals[id as usize];
        g.data.get_or_init(|| {
            let mut out = vec![0u8; g.size as usize];
            if let Some(t) = &g.init {
                let toks = lex(t);
                let mut i = 0;
                while !matches!(toks[i], Tok::W("global") | Tok::W("constant")) {
                    i += 1
                }
                i += 1;
                let ty = self.ty(&toks, &mut i);
                let mut vals = vec![];
                self.konst(&ty, &toks, &mut i, &mut vals);
                let mut lv = vec![];
                ty.leaves(0, &mut lv);
                assert_eq!(lv.len(), vals.len(), "global {}", g.name);
                for ((off, w, _), v) in lv.iter().zip(vals) {
                    let n = (*w as usize + 7) / 8;
                    for k in 0..n {
                        out[*off as usize + k] = (v >> (8 * k)) as u8;
                    }
                }
            }
            out
        })
    }
    pub fn ty(&self, t: &[Tok], i: &mut usize) -> Ty {
        let r = match &t[*i] {
            Tok::W(w) => {
                *i += 1;
                if let Some(n) = int_ty(w) {
                    Ty::Int(n)
                } else {
                    match *w {
                        "ptr" => {
                            if matches!(t.get(*i), Some(Tok::W("addrspace"))) {
                                *i += 4;
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::F32,
                        "double" => Ty::F64,
                        _ => Ty::Other,
                    }
                }
            }
            Tok::L(n) => {
                *i += 1;
                self.types.get(*n).cloned().unwrap_or(Ty::Other)
            }
            Tok::P('[') => {
                *i += 1;
                let n = num(&t[*i]);
                *i += 2; // n x
                let e = self.ty(t, i);
                *i += 1;
                Ty::Arr(n as u64, Box::new(e))
            }
            Tok::P('<') => {
                *i += 1;
                if t[*i] == Tok::P('{') {
                    let Ty::Struct(f, _) = self.ty(t, i) else { panic!() };
                    *i += 1;
                    Ty::Struct(f, true)
                } else {
                    let n = num(&t[*i]);
                    *i += 2;
                    let e = self.ty(t, i);
                    *i += 1;
                    Ty::Vec(n as u32, Box::new(e))
                }
            }
            Tok::P('{') => {
                *i += 1;
                let mut f = vec![];
                while t[*i] != Tok::P('}') {
                    f.push(self.ty(t, i));
                    if t[*i] == Tok::P(',') {
                        *i += 1
                    }
                }
                *i += 1;
                Ty::Struct(f, false)
            }
            x => panic!("type? {:?}", x),
        };
        r
    }
    /// constant of type `ty` at t[*i], appended as leaves
    pub fn konst(&self, ty: &Ty, t: &[Tok], i: &mut usize, out: &mut Vec<u128>) {
        let tok = t[*i].clone();
        match (&tok, ty) {
            (Tok::N(s), _) => {
                *i += 1;
                out.push(parse_num(s, ty));
            }
            (Tok::W("true"), _) => {
                *i += 1;
                out.push(1)
            }
            (Tok::W("false"), _) => {
                *i += 1;
                out.push(0)
            }
            (Tok::W("null" | "undef" | "poison" | "zeroinitializer" | "none"), _) => {
                *i += 1;
                for _ in 0..ty.nleaves() {
                    out.push(0)
                }
            }
            (Tok::W("c"), _) => {
                *i += 1;
                let Tok::S(s) = t[*i] else { panic!() };
                *i += 1;
                for b in unescape(s) {
                    out.push(b as u128)
                }
            }
            (Tok::G(g), _) => {
                *i += 1;
                out.push(self.sym_addr(g) as u128)
            }
            (Tok::P('['), _) | (Tok::P('{'), _) => {
                *i += 1;
                while !matches!(t[*i], Tok::P(']') | Tok::P('}')) {
                    let et = self.ty(t, i);
                    self.konst(&et, t, i, out);
                    if t[*i] == Tok::P(',') {
                        *i += 1
                    }
                }
                *i += 1;
            }
            (Tok::P('<'), _) => {
                *i += 1;
                if t[*i] == Tok::P('{') {
                    self.konst(ty, t, i, out);
                    *i += 1;
                } else {
                    while t[*i] != Tok::P('>') {
                        let et = self.ty(t, i);
                        self.konst(&et, t, i, out);
                        if t[*i] == Tok::P(',') {
                            *i += 1
                        }
                    }
                    *i += 1;
                }
            }
            (Tok::W("splat"), Ty::Vec(n, _)) => {
                *i += 2;
                let et = self.ty(t, i);
                let mut v = vec![];
                self.konst(&et, t, i, &mut v);
                *i += 1;
                for _ in 0..*n {
                    out.push(v[0])
                }
            }
            (Tok::W("getelementptr"), _) => {
                *i += 1;
                while t[*i] != Tok::P('(') {
                    if matches!(t[*i], Tok::W("inrange")) {
                        *i += 1;
                        skip_paren(t, i);
                        continue;
                    }
                    *i += 1
                }
                *i += 1;
                let et = self.ty(t, i);
                *i += 1; // ,
                let _pt = self.ty(t, i);
                let mut v = vec![];
                self.konst(&Ty::Ptr, t, i, &mut v);
                let mut addr = v[0] as u64;
                let mut first = true;
                let mut cur = et;
                while t[*i] == Tok::P(',') {
                    *i += 1;
                    let it = self.ty(t, i);
                    let mut v = vec![];
                    self.konst(&it, t, i, &mut v);
                    let Ty::Int(w) = it else { panic!() };
                    let idx = crate::expr::sext(v[0], w) as i64;
                    if first {
                        addr = addr.wrapping_add((idx as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, nt) = match &cur {
                            Ty::Arr(_, e) => ((idx as u64).wrapping_mul(e.size()), (**e).clone()),
                            _ => {
                                let (o, n) = cur.field_off(idx as usize);
                                (o, n.clone())
                            }
                        };
                        addr = addr.wrapping_add(o);
                        cur = nt;
                    }
                }
                *i += 1;
                out.push(addr as u128);
            }
            (Tok::W("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr"), _) => {
                *i += 2;
                let st = self.ty(t, i);
                let mut v = vec![];
                self.konst(&st, t, i, &mut v);
                *i += 1; // to
                let dt = self.ty(t, i);
                *i += 1;
                let w = match dt {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                out.push(v[0] & crate::expr::mask(w));
            }
            (Tok::W(op @ ("add" | "sub" | "xor" | "and" | "or")), _) => {
                *i += 1;
                while t[*i] != Tok::P('(') {
                    *i += 1
                }
                *i += 1;
                let at = self.ty(t, i);
                let mut v = vec![];
                self.konst(&at, t, i, &mut v);
                *i += 1;
                let bt = self.ty(t, i);
                self.konst(&bt, t, i, &mut v);
                *i += 1;
                let Ty::Int(w) = at else { panic!() };
                let r = match *op {
                    "add" => v[0].wrapping_add(v[1]),
                    "sub" => v[0].wrapping_sub(v[1]),
                    "xor" => v[0] ^ v[1],
                    "and" => v[0] & v[1],
                    _ => v[0] | v[1],
                };
                out.push(r & crate::expr::mask(w));
            }
            _ => panic!("constant? {:?} of {:?}; near {:?}", tok, ty, &t[*i..(*i + 5).min(t.len())]),
        }
    }
    pub fn func(&self, id: u32) -> &Func {
        let d = &self.fns[id as usize];
        d.compiled.get_or_init(|| compile(self, id, &d.name, d.text.as_ref().expect("no body")))
    }
}

fn fn_name(line: &str) -> String {
    let i = line.find('@').unwrap();
    let r = &line[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        r[..r.find('(').unwrap()].to_string()
    }
}

fn num(t: &Tok) -> i128 {
    if let Tok::N(s) = t {
        s.parse().unwrap()
    } else {
        panic!("number? {:?}", t)
    }
}

fn parse_num(s: &str, ty: &Ty) -> u128 {
    match ty {
        Ty::Int(w) => {
            if let Some(h) = s.strip_prefix("0x") {
                return u128::from_str_radix(h, 16).unwrap();
            }
            let v: i128 = match s.parse::<i128>() {
                Ok(v) => v,
                Err(_) => s.parse::<u128>().unwrap() as i128,
            };
            (v as u128) & crate::expr::mask(*w)
        }
        Ty::F64 => {
            if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16).unwrap() as u128
            } else {
                s.parse::<f64>().unwrap().to_bits() as u128
            }
        }
        Ty::F32 => {
            if let Some(h) = s.strip_prefix("0x") {
                (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u128
            } else {
                (s.parse::<f64>().unwrap() as f32).to_bits() as u128
            }
        }
        _ => panic!("num {} of {:?}", s, ty),
    }
}

fn skip_paren(t: &[Tok], i: &mut usize) {
    assert_eq!(t[*i], Tok::P('('));
    let mut d = 0;
    loop {
        match t[*i] {
            Tok::P('(') => d += 1,
            Tok::P(')') => d -= 1,
            _ => {}
        }
        *i += 1;
        if d == 0 {
            return;
        }
    }
}

fn is_value_start(t: &Tok) -> bool {
    match t {
        Tok::W(w) => matches!(
            *w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "c" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "and" | "or" | "asm" | "blockaddress"
        ),
        Tok::L(_) | Tok::G(_) | Tok::N(_) | Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
        _ => false,
    }
}

/// skip parameter/return attributes up to a value
fn skip_attrs(t: &[Tok], i: &mut usize) {
    loop {
        match &t[*i] {
            Tok::W("align") => {
                *i += 1;
                match t[*i] {
                    Tok::P('(') => skip_paren(t, i),
                    _ => *i += 1,
                }
            }
            x if is_value_start(x) => return,
            Tok::W(_) => {
                *i += 1;
                if t.get(*i) == Some(&Tok::P('(')) {
                    skip_paren(t, i)
                }
            }
            Tok::S(_) => {
                *i += 1;
                if t.get(*i) == Some(&Tok::P('=')) {
                    *i += 2
                }
            }
            _ => return,
        }
    }
}
fn skip_to_type(t: &[Tok], i: &mut usize) {
    loop {
        if is_type_start(&t[*i]) {
            return;
        }
        match &t[*i] {
            Tok::W("align") => {
                *i += 1;
                match t[*i] {
                    Tok::P('(') => skip_paren(t, i),
                    _ => *i += 1,
                }
            }
            Tok::W(_) => {
                *i += 1;
                if t.get(*i) == Some(&Tok::P('(')) {
                    skip_paren(t, i)
                }
            }
            Tok::S(_) => *i += 1,
            x => panic!("skip_to_type {:?}", x),
        }
    }
}

struct C<'a> {
    p: &'a Program,
    locals: HashMap<String, u32>,
    nslots: u32,
    consts: Vec<u128>,
    cmap: HashMap<u128, O>,
    code: Vec<Ins>,
}

impl<'a> C<'a> {
    fn cst(&mut self, v: u128) -> O {
        if let Some(&o) = self.cmap.get(&v) {
            return o;
        }
        let o = !(self.consts.len() as i32);
        self.consts.push(v);
        self.cmap.insert(v, o);
        o
    }
    fn local(&mut self, n: &str, k: usize) -> u32 {
        if let Some(&s) = self.locals.get(n) {
            return s;
        }
        let s = self.nslots;
        self.nslots += k as u32;
        self.locals.insert(n.to_string(), s);
        s
    }
    fn val(&mut self, ty: &Ty, t: &[Tok], i: &mut usize) -> Vec<O> {
        if let Tok::L(n) = &t[*i] {
            *i += 1;
            let k = ty.nleaves();
            let s = self.local(n, k);
            return (0..k).map(|j| (s + j as u32) as O).collect();
        }
        let mut v = vec![];
        self.p.konst(ty, t, i, &mut v);
        v.into_iter().map(|x| self.cst(x)).collect()
    }
    fn tval(&mut self, t: &[Tok], i: &mut usize) -> (Ty, Vec<O>) {
        let ty = self.p.ty(t, i);
        skip_attrs(t, i);
        let v = self.val(&ty, t, i);
        (ty, v)
    }
}

fn compile(p: &Program, id: u32, name: &str, text: &str) -> Func {
    let mut lines: Vec<String> = vec![];
    let mut it = text.lines();
    let head = it.next().unwrap();
    // gather logical lines
    while let Some(l) = it.next() {
        if l.starts_with('}') {
            break;
        }
        let tl = l.trim_start();
        if tl.is_empty() || tl.starts_with(';') {
            continue;
        }
        let body = if let Some(k) = tl.find(" = ") {
            if tl.starts_with('%') {
                &tl[k + 3..]
            } else {
                tl
            }
        } else {
            tl
        };
        if body.starts_with("switch ") {
            let mut s = l.to_string();
            while !s.contains(']') {
                s.push(' ');
                s.push_str(it.next().unwrap());
            }
            lines.push(s);
        } else if body.starts_with("invoke ") {
            let mut s = l.to_string();
            s.push(' ');
            s.push_str(it.next().unwrap());
            lines.push(s);
        } else if tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") {
            continue;
        } else {
            lines.push(l.to_string());
        }
    }
    let mut c = C { p, locals: HashMap::new(), nslots: 0, consts: vec![], cmap: HashMap::new(), code: vec![] };
    // params
    let ht = lex(head);
    let mut i = 0;
    while !matches!(ht[i], Tok::G(_)) {
        i += 1
    }
    i += 2;
    let mut unnamed = 0;
    while ht[i] != Tok::P(')') {
        if ht[i] == Tok::W("...") {
            i += 1;
            continue;
        }
        let ty = p.ty(&ht, &mut i);
        // attributes
        loop {
            match &ht[i] {
                Tok::L(n) => {
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    c.local(n, ty.nleaves());
                    i += 1;
                    break;
                }
                Tok::W("align") => {
                    i += 1;
                    match ht[i] {
                        Tok::P('(') => skip_paren(&ht, &mut i),
                        _ => i += 1,
                    }
                }
                Tok::W(_) => {
                    i += 1;
                    if ht[i] == Tok::P('(') {
                        skip_paren(&ht, &mut i)
                    }
                }
                Tok::S(_) => i += 1,
                x => panic!("param {:?} in {}", x, name),
            }
        }
        if ht[i] == Tok::P(',') {
            i += 1
        }
    }
    let nparams = c.nslots;
    // blocks
    struct Blk {
        name: String,
        lines: Vec<usize>,
    }
    let mut blocks: Vec<Blk> = vec![];
    for (k, l) in lines.iter().enumerate() {
        let first = l.as_bytes()[0];
        if first != b' ' && first != b'\t' {
            let n = if first == b'"' {
                l[1..1 + l[1..].find('"').unwrap()].to_string()
            } else {
                l[..l.find(':').unwrap()].to_string()
            };
            blocks.push(Blk { name: n, lines: vec![] });
        } else {
            if blocks.is_empty() {
                blocks.push(Blk { name: unnamed.to_string(), lines: vec![] });
            }
            blocks.last_mut().unwrap().lines.push(k);
        }
    }
    let bmap: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();
    // phis: per block, list of (dst, n, [(pred, vals)])
    let mut phis: Vec<Vec<(u32, Vec<(usize, Vec<O>)>)>> = (0..blocks.len()).map(|_| vec![]).collect();
    let mut starts = vec![0u32; blocks.len()];
    // edges requested: (pred, succ) -> index
    let mut edges: Vec<(usize, usize)> = vec![];
    let mut emap: HashMap<(usize, usize), u32> = HashMap::new();
    for bi in 0..blocks.len() {
        starts[bi] = c.code.len() as u32;
        for &lk in &blocks[bi].lines {
            let toks = lex(&lines[lk]);
            let mut edge = |s: &str| -> u32 {
                let t = bmap[s];
                *emap.entry((bi, t)).or_insert_with(|| {
                    edges.push((bi, t));
                    edges.len() as u32 - 1
                })
            };
            let mut i = 0;
            let mut dst: Option<&str> = None;
            if let Tok::L(n) = &toks[0] {
                if toks.get(1) == Some(&Tok::P('=')) {
                    dst = Some(n);
                    i = 2;
                }
            }
            let Tok::W(mut op) = toks[i] else { panic!("op? {}", lines[lk]) };
            i += 1;
            while matches!(op, "tail" | "musttail" | "notail") {
                let Tok::W(o) = toks[i] else { panic!() };
                op = o;
                i += 1;
            }
            let t = &toks[..];
            match op {
                "phi" => {
                    while matches!(t[i], Tok::W("nnan" | "ninf" | "nsz" | "fast" | "contract" | "afn" | "arcp" | "reassoc")) {
                        i += 1
                    }
                    let ty = p.ty(t, &mut i);
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    let mut v = vec![];
                    while i < t.len() && t[i] == Tok::P('[') {
                        i += 1;
                        let x = c.val(&ty, t, &mut i);
                        i += 1;
                        let Tok::L(b) = t[i] else { panic!() };
                        i += 2;
                        v.push((bmap[b], x));
                        if i < t.len() && t[i] == Tok::P(',') {
                            i += 1
                        } else {
                            break;
                        }
                    }
                    phis[bi].push((d, v));
                }
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                    while matches!(t[i], Tok::W("nuw" | "nsw" | "exact" | "disjoint")) {
                        i += 1
                    }
                    let ty = p.ty(t, &mut i);
                    let a = c.val(&ty, t, &mut i);
                    i += 1;
                    let b = c.val(&ty, t, &mut i);
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    let bo = match op {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "udiv" => BinOp::UDiv,
                        "sdiv" => BinOp::SDiv,
                        "urem" => BinOp::URem,
                        "srem" => BinOp::SRem,
                        "shl" => BinOp::Shl,
                        "lshr" => BinOp::LShr,
                        "ashr" => BinOp::AShr,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        _ => BinOp::Xor,
                    };
                    let w = scalar_w(&ty);
                    for k in 0..a.len() {
                        c.code.push(Ins::Bin { op: bo, w, d: d + k as u32, a: a[k], b: b[k] });
                    }
                }
                "icmp" => {
                    if matches!(t[i], Tok::W("samesign")) {
                        i += 1
                    }
                    let Tok::W(ps) = t[i] else { panic!() };
                    i += 1;
                    let ty = p.ty(t, &mut i);
                    let a = c.val(&ty, t, &mut i);
                    i += 1;
                    let b = c.val(&ty, t, &mut i);
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    let pr = match ps {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!(),
                    };
                    let w = scalar_w(&ty);
                    for k in 0..a.len() {
                        c.code.push(Ins::Icmp { p: pr, w, d: d + k as u32, a: a[k], b: b[k] });
                    }
                }
                "zext" | "sext" | "trunc" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                    while matches!(t[i], Tok::W("nneg" | "nuw" | "nsw")) {
                        i += 1
                    }
                    let (st, a) = c.tval(t, &mut i);
                    i += 1; // to
                    let dt = p.ty(t, &mut i);
                    let d = c.local(dst.unwrap(), dt.nleaves());
                    let (fw, tw) = (scalar_w(&st), scalar_w(&dt));
                    match op {
                        "bitcast" => {
                            if a.len() == dt.nleaves() {
                                for k in 0..a.len() {
                                    c.code.push(Ins::Mov { d: d + k as u32, a: a[k] });
                                }
                            } else if dt.nleaves() == 1 {
                                c.code.push(Ins::Concat { d, w: fw, parts: a.into() });
                            } else if a.len() == 1 {
                                c.code.push(Ins::Split { d, w: tw, n: dt.nleaves() as u32, a: a[0] });
                            } else {
                                // vector to vector of another lane width: through one wide integer
                                let tmp = c.nslots;
                                c.nslots += 1;
                                assert!(fw as usize * a.len() <= 128);
                                c.code.push(Ins::Concat { d: tmp, w: fw, parts: a.into() });
                                c.code.push(Ins::Split { d, w: tw, n: dt.nleaves() as u32, a: tmp as O });
                            }
                        }
                        "zext" | "sext" | "trunc" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "addrspacecast" => {
                            for k in 0..a.len() {
                                let d = d + k as u32;
                                let a = a[k];
                                c.code.push(if fw == tw {
                                    Ins::Mov { d, a }
                                } else if tw < fw {
                                    Ins::Trunc { d, a, to: tw, from: fw }
                                } else if op == "sext" {
                                    Ins::SExt { d, a, from: fw, to: tw }
                                } else {
                                    Ins::ZExt { d, a, from: fw, to: tw }
                                });
                            }
                        }
                        _ => {
                            let k = match op {
                                "fptoui" => FCast::FpToUi,
                                "fptosi" => FCast::FpToSi,
                                "uitofp" => FCast::UiToFp,
                                "sitofp" => FCast::SiToFp,
                                "fpext" => FCast::FpExt,
                                _ => FCast::FpTrunc,
                            };
                            for j in 0..a.len() {
                                c.code.push(Ins::FCast { k, from: fw, to: tw, d: d + j as u32, a: a[j] });
                            }
                        }
                    }
                }
                "freeze" => {
                    let (ty, a) = c.tval(t, &mut i);
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    for k in 0..a.len() {
                        c.code.push(Ins::Mov { d: d + k as u32, a: a[k] });
                    }
                }
                "select" => {
                    while !is_type_start(&t[i]) {
                        i += 1
                    }
                    let (_ct, cv) = c.tval(t, &mut i);
                    i += 1;
                    let (ty, a) = c.tval(t, &mut i);
                    i += 1;
                    let (_, b) = c.tval(t, &mut i);
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    let mut lv = vec![];
                    ty.leaves(0, &mut lv);
                    for k in 0..a.len() {
                        let cc = if cv.len() == 1 { cv[0] } else { cv[k] };
                        c.code.push(Ins::Select { d: d + k as u32, c: cc, a: a[k], b: b[k], w: lv[k].1 as u8, ptr: lv[k].2 });
                    }
                }
                "load" => {
                    while matches!(t[i], Tok::W("atomic" | "volatile")) {
                        i += 1
                    }
                    let ty = p.ty(t, &mut i);
                    i += 1;
                    let (_, pv) = c.tval(t, &mut i);
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    let mut lv = vec![];
                    ty.leaves(0, &mut lv);
                    if lv.iter().any(|x| x.0 == u64::MAX) {
                        let n = lv.len() as u32;
                        let tmp = c.nslots;
                        c.nslots += 1;
                        c.code.push(Ins::Load { d: tmp, p: pv[0], off: 0, w: (n * lv[0].1) as u8 });
                        c.code.push(Ins::Split { d, w: lv[0].1 as u8, n, a: tmp as O });
                    } else {
                        for (k, (off, w, _)) in lv.iter().enumerate() {
                            c.code.push(Ins::Load { d: d + k as u32, p: pv[0], off: *off as u32, w: *w as u8 });
                        }
                    }
                }
                "store" => {
                    while matches!(t[i], Tok::W("atomic" | "volatile")) {
                        i += 1
                    }
                    let (ty, v) = c.tval(t, &mut i);
                    i += 1;
                    let (_, pv) = c.tval(t, &mut i);
                    let mut lv = vec![];
                    ty.leaves(0, &mut lv);
                    if lv.iter().any(|x| x.0 == u64::MAX) {
                        let n = lv.len() as u32;
                        let tmp = c.nslots;
                        c.nslots += 1;
                        let w = lv[0].1 as u8;
                        c.code.push(Ins::Concat { d: tmp, w, parts: v.into() });
                        c.code.push(Ins::Store { v: tmp as O, p: pv[0], off: 0, w: (n * w as u32) as u8 });
                    } else {
                        for (k, (off, w, _)) in lv.iter().enumerate() {
                            c.code.push(Ins::Store { v: v[k], p: pv[0], off: *off as u32, w: *w as u8 });
                        }
                    }
                }
                "getelementptr" => {
                    while matches!(t[i], Tok::W("inbounds" | "nuw" | "nusw")) || matches!(t[i], Tok::W("inrange")) {
                        i += 1;
                        if t[i] == Tok::P('(') {
                            skip_paren(t, &mut i)
                        }
                    }
                    let et = p.ty(t, &mut i);
                    i += 1;
                    let (_, base) = c.tval(t, &mut i);
                    let mut off: i64 = 0;
                    let mut idxs: Vec<(O, u8, u64)> = vec![];
                    let mut cur = et;
                    let mut first = true;
                    while i < t.len() && t[i] == Tok::P(',') {
                        if t[i + 1] == Tok::M {
                            break;
                        }
                        i += 1;
                        let (it, v) = c.tval(t, &mut i);
                        let w = scalar_w(&it);
                        let o = v[0];
                        let cv = if o < 0 { Some(crate::expr::sext(c.consts[!o as usize], w as u32) as i64) } else { None };
                        let scale;
                        if first {
                            scale = cur.size();
                            first = false;
                        } else {
                            match cur.clone() {
                                Ty::Arr(_, e) => {
                                    scale = e.size();
                                    cur = *e;
                                }
                                Ty::Vec(_, e) => {
                                    scale = e.size();
                                    cur = *e;
                                }
                                s => {
                                    let (fo, ft) = s.field_off(cv.unwrap() as usize);
                                    off += fo as i64;
                                    cur = ft.clone();
                                    continue;
                                }
                            }
                        }
                        match cv {
                            Some(k) => off += k.wrapping_mul(scale as i64),
                            None => idxs.push((o, w, scale)),
                        }
                    }
                    let d = c.local(dst.unwrap(), 1);
                    if idxs.is_empty() {
                        c.code.push(Ins::Gep0 { d, base: base[0], off });
                    } else if idxs.len() == 1 && off >= i32::MIN as i64 && off <= i32::MAX as i64 && idxs[0].2 <= u32::MAX as u64 {
                        let (o, w, s) = idxs[0];
                        c.code.push(Ins::Gep1 { d, base: base[0], idx: o, iw: w, scale: s as u32, off: off as i32 });
                    } else {
                        c.code.push(Ins::GepN { d, base: base[0], off, idx: idxs.into() });
                    }
                }
                "alloca" => {
                    let ty = p.ty(t, &mut i);
                    let mut n = 1u64;
                    if i < t.len() && t[i] == Tok::P(',') && is_type_start(&t[i + 1]) {
                        i += 1;
                        let (_, v) = c.tval(t, &mut i);
                        n = c.consts[!v[0] as usize] as u64;
                    }
                    let d = c.local(dst.unwrap(), 1);
                    c.code.push(Ins::Alloca { d, size: ty.size() * n });
                }
                "extractvalue" => {
                    let (ty, a) = c.tval(t, &mut i);
                    let mut cur = ty;
                    let mut leaf = 0;
                    while i < t.len() && t[i] == Tok::P(',') {
                        i += 1;
                        if !matches!(t[i], Tok::N(_)) {
                            break;
                        }
                        let k = num(&t[i]) as usize;
                        i += 1;
                        let nt = match &cur {
                            Ty::Struct(f, _) => {
                                leaf += f[..k].iter().map(|t| t.nleaves()).sum::<usize>();
                                f[k].clone()
                            }
                            Ty::Arr(_, e) => {
                                leaf += k * e.nleaves();
                                (**e).clone()
                            }
                            _ => panic!(),
                        };
                        cur = nt;
                    }
                    let n = cur.nleaves();
                    let d = c.local(dst.unwrap(), n);
                    for k in 0..n {
                        c.code.push(Ins::Mov { d: d + k as u32, a: a[leaf + k] });
                    }
                }
                "insertvalue" => {
                    let (ty, a) = c.tval(t, &mut i);
                    i += 1;
                    let (vt, v) = c.tval(t, &mut i);
                    let mut cur = ty.clone();
                    let mut leaf = 0;
                    while i < t.len() && t[i] == Tok::P(',') {
                        i += 1;
                        if !matches!(t[i], Tok::N(_)) {
                            break;
                        }
                        let k = num(&t[i]) as usize;
                        i += 1;
                        let nt = match &cur {
                            Ty::Struct(f, _) => {
                                leaf += f[..k].iter().map(|t| t.nleaves()).sum::<usize>();
                                f[k].clone()
                            }
                            Ty::Arr(_, e) => {
                                leaf += k * e.nleaves();
                                (**e).clone()
                            }
                            _ => panic!(),
                        };
                        cur = nt;
                    }
                    let n = ty.nleaves();
                    let vn = vt.nleaves();
                    let d = c.local(dst.unwrap(), n);
                    for k in 0..n {
                        let src = if k >= leaf && k < leaf + vn { v[k - leaf] } else { a[k] };
                        c.code.push(Ins::Mov { d: d + k as u32, a: src });
                    }
                }
                "extractelement" => {
                    let (ty, a) = c.tval(t, &mut i);
                    i += 1;
                    let (_, k) = c.tval(t, &mut i);
                    let _ = ty;
                    let d = c.local(dst.unwrap(), 1);
                    assert!(k[0] < 0, "dynamic extractelement");
                    let k = c.consts[!k[0] as usize] as usize;
                    c.code.push(Ins::Mov { d, a: a[k] });
                }
                "insertelement" => {
                    let (ty, a) = c.tval(t, &mut i);
                    i += 1;
                    let (_, v) = c.tval(t, &mut i);
                    i += 1;
                    let (_, k) = c.tval(t, &mut i);
                    assert!(k[0] < 0, "dynamic insertelement");
                    let k = c.consts[!k[0] as usize] as usize;
                    let n = ty.nleaves();
                    let d = c.local(dst.unwrap(), n);
                    for j in 0..n {
                        c.code.push(Ins::Mov { d: d + j as u32, a: if j == k { v[0] } else { a[j] } });
                    }
                }
                "shufflevector" => {
                    let (ty, a) = c.tval(t, &mut i);
                    i += 1;
                    let (_, b) = c.tval(t, &mut i);
                    i += 1;
                    let mt = p.ty(t, &mut i);
                    let mut m = vec![];
                    p.konst(&mt, t, &mut i, &mut m);
                    let n = ty.nleaves();
                    let d = c.local(dst.unwrap(), m.len());
                    for (j, &k) in m.iter().enumerate() {
                        let k = k as usize;
                        c.code.push(Ins::Mov { d: d + j as u32, a: if k < n { a[k] } else { b[k - n] } });
                    }
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                    while !is_type_start(&t[i]) {
                        i += 1
                    }
                    let ty = p.ty(t, &mut i);
                    let a = c.val(&ty, t, &mut i);
                    let b = if op == "fneg" {
                        a.clone()
                    } else {
                        i += 1;
                        c.val(&ty, t, &mut i)
                    };
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    let fo = match op {
                        "fadd" => FOp::Add,
                        "fsub" => FOp::Sub,
                        "fmul" => FOp::Mul,
                        "fdiv" => FOp::Div,
                        "frem" => FOp::Rem,
                        _ => FOp::Neg,
                    };
                    for k in 0..a.len() {
                        c.code.push(Ins::FBin { op: fo, w: scalar_w(&ty), d: d + k as u32, a: a[k], b: b[k] });
                    }
                }
                "fcmp" => {
                    while !matches!(t[i], Tok::W("oeq" | "ogt" | "oge" | "olt" | "ole" | "one" | "ord" | "ueq" | "ugt" | "uge" | "ult" | "ule" | "une" | "uno" | "true" | "false")) {
                        i += 1
                    }
                    let Tok::W(ps) = t[i] else { panic!() };
                    i += 1;
                    let ty = p.ty(t, &mut i);
                    let a = c.val(&ty, t, &mut i);
                    i += 1;
                    let b = c.val(&ty, t, &mut i);
                    let d = c.local(dst.unwrap(), ty.nleaves());
                    // bits: 1 = less, 2 = equal, 4 = greater, 8 = unordered
                    let m = match ps {
                        "oeq" => 2,
                        "ogt" => 4,
                        "oge" => 6,
                        "olt" => 1,
                        "ole" => 3,
                        "one" => 5,
                        "ord" => 7,
                        "ueq" => 10,
                        "ugt" => 12,
                        "uge" => 14,
                        "ult" => 9,
                        "ule" => 11,
                        "une" => 13,
                        "uno" => 8,
                        "true" => 15,
                        _ => 0,
                    };
                    for k in 0..a.len() {
                        c.code.push(Ins::FCmp { p: m, w: scalar_w(&ty), d: d + k as u32, a: a[k], b: b[k] });
                    }
                }
                "br" => {
                    if matches!(t[i], Tok::W("label")) {
                        let Tok::L(b) = t[i + 1] else { panic!() };
                        let e = edge(b);
                        c.code.push(Ins::Br(e));
                    } else {
                        let (_, cv) = c.tval(t, &mut i);
                        let Tok::L(b1) = t[i + 2] else { panic!() };
                        let Tok::L(b2) = t[i + 5] else { panic!() };
                        let e1 = edge(b1);
                        let e2 = edge(b2);
                        c.code.push(Ins::CondBr { c: cv[0], t: e1, f: e2 });
                    }
                }
                "switch" => {
                    let (ty, v) = c.tval(t, &mut i);
                    let Tok::L(d) = t[i + 2] else { panic!() };
                    let def = edge(d);
                    i += 4;
                    let mut cases = vec![];
                    while t[i] != Tok::P(']') {
                        let ct = p.ty(t, &mut i);
                        let mut k = vec![];
                        p.konst(&ct, t, &mut i, &mut k);
                        let Tok::L(b) = t[i + 2] else { panic!() };
                        i += 3;
                        cases.push((k[0], edge(b)));
                    }
                    c.code.push(Ins::Switch { v: v[0], w: scalar_w(&ty), cases: cases.into(), def });
                }
                "ret" => {
                    let ty = p.ty(t, &mut i);
                    let v = if ty == Ty::Void { vec![] } else { c.val(&ty, t, &mut i) };
                    c.code.push(Ins::Ret(v.into()));
                }
                "unreachable" | "resume" => c.code.push(Ins::Unreachable),
                "landingpad" => {
                    let ty = p.ty(t, &mut i);
                    let n = ty.nleaves();
                    c.local(dst.unwrap(), n);
                }
                "fence" => {}
                "atomicrmw" => {
                    if matches!(t[i], Tok::W("volatile")) {
                        i += 1
                    }
                    let Tok::W(o) = t[i] else { panic!() };
                    i += 1;
                    let (_, pv) = c.tval(t, &mut i);
                    i += 1;
                    let (ty, v) = c.tval(t, &mut i);
                    let d = c.local(dst.unwrap(), 1);
                    let ok = match o {
                        "xchg" => 0,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        "umax" => 6,
                        _ => 99,
                    };
                    c.code.push(Ins::AtomicRmw { op: ok, d, p: pv[0], v: v[0], w: scalar_w(&ty) });
                }
                "cmpxchg" => {
                    while matches!(t[i], Tok::W("weak" | "volatile")) {
                        i += 1
                    }
                    let (_, pv) = c.tval(t, &mut i);
                    i += 1;
                    let (ty, e) = c.tval(t, &mut i);
                    i += 1;
                    let (_, n) = c.tval(t, &mut i);
                    let d = c.local(dst.unwrap(), 2);
                    c.code.push(Ins::CmpXchg { d, p: pv[0], e: e[0], n: n[0], w: scalar_w(&ty) });
                }
                "call" | "invoke" => {
                    skip_to_type(t, &mut i);
                    let rt = p.ty(t, &mut i);
                    if t[i] == Tok::P('(') {
                        skip_paren(t, &mut i);
                    }
                    let n = rt.nleaves();
                    let callee = t[i].clone();
                    let mut is_asm = false;
                    if callee == Tok::W("asm") {
                        is_asm = true;
                        while t[i] != Tok::P('(') {
                            i += 1
                        }
                    } else if matches!(callee, Tok::W(_)) {
                        // constant expression callee (inttoptr ...)
                        let mut v = vec![];
                        p.konst(&Ty::Ptr, t, &mut i, &mut v);
                    } else {
                        i += 1;
                    }
                    assert_eq!(t[i], Tok::P('('), "call: {}", lines[lk]);
                    i += 1;
                    let mut args = vec![];
                    let mut argw = 0u8;
                    let mut arity = vec![];
                    while t[i] != Tok::P(')') {
                        if matches!(t[i], Tok::W("metadata")) {
                            i += 1;
                            while !matches!(t[i], Tok::P(',') | Tok::P(')')) {
                                i += 1
                            }
                        } else {
                            let (ty, v) = c.tval(t, &mut i);
                            if argw == 0 {
                                argw = scalar_w(&ty);
                            }
                            arity.push(v.len());
                            args.extend(v);
                        }
                        if t[i] == Tok::P(',') {
                            i += 1
                        }
                    }
                    let d = match dst {
                        Some(x) => c.local(x, n),
                        None => {
                            let d = c.nslots;
                            c.nslots += n as u32;
                            d
                        }
                    };
                    if is_asm {
                        for k in 0..n {
                            let z = c.cst(0);
                            c.code.push(Ins::Mov { d: d + k as u32, a: z });
                        }
                    } else {
                        match callee {
                            Tok::G(g) => {
                                let fid = *p.fmap.get(g).unwrap_or_else(|| panic!("callee {}", g));
                                let fd = &p.fns[fid as usize];
                                match fd.builtin {
                                    Some(Bi::Nop) => {
                                        if n > 0 {
                                            let z = c.cst(0);
                                            for k in 0..n {
                                                c.code.push(Ins::Mov { d: d + k as u32, a: z });
                                            }
                                        }
                                    }
                                    Some(b) => {
                                        // vector operands: expand lane-wise where the operation is lane-wise
                                        let lanewise = matches!(
                                            b,
                                            Bi::USubSat | Bi::UAddSat | Bi::UMax | Bi::UMin | Bi::SMax | Bi::SMin | Bi::CtPop | Bi::Bswap | Bi::BitRev | Bi::Fshl | Bi::Fshr
                                        );
                                        if lanewise && arity[0] > 1 {
                                            let ln = arity[0];
                                            for k in 0..ln {
                                                let a: Vec<O> = (0..arity.len()).map(|j| args[j * ln + k]).collect();
                                                c.code.push(Ins::Builtin { k: b, d: d + k as u32, w: argw, args: a.into(), name: fid });
                                            }
                                        } else {
                                            let w = if matches!(b, Bi::FToUiSat | Bi::FToSiSat) { scalar_w(&rt) } else { argw };
                                            if matches!(b, Bi::FToUiSat | Bi::FToSiSat) {
                                                let fw = c.cst(argw as u128);
                                                args.push(fw);
                                            }
                                            c.code.push(Ins::Builtin { k: b, d, w, args: args.into(), name: fid });
                                        }
                                    }
                                    None => {
                                        if fd.text.is_none() {
                                            c.code.push(Ins::Builtin { k: Bi::Unknown, d, w: argw, args: args.into(), name: fid });
                                        } else {
                                            c.code.push(Ins::Call { f: fid, d, n: n as u8, args: args.into() });
                                        }
                                    }
                                }
                            }
                            Tok::L(l) => {
                                let f = c.local(l, 1);
                                c.code.push(Ins::CallInd { f: f as O, d, args: args.into() });
                            }
                            _ => c.code.push(Ins::Unreachable),
                        }
                    }
                    if op == "invoke" {
                        while !matches!(t[i], Tok::W("to")) {
                            i += 1
                        }
                        let Tok::L(b) = t[i + 2] else { panic!() };
                        let e = edge(b);
                        c.code.push(Ins::Br(e));
                    }
                }
                _ => panic!("instruction `{}` unsupported: {}", op, lines[lk]),
            }
        }
    }
    let edges = edges
        .into_iter()
        .map(|(pr, su)| {
            let mut moves = vec![];
            for (d, v) in &phis[su] {
                let (_, x) = v.iter().find(|(b, _)| *b == pr).expect("phi pred");
                for (k, &o) in x.iter().enumerate() {
                    let dd = d + k as u32;
                    if o != dd as O {
                        moves.push((dd, o));
                    }
                }
            }
            let dsts: std::collections::HashSet<u32> = moves.iter().map(|m| m.0).collect();
            let parallel = moves.iter().any(|&(_, o)| o >= 0 && dsts.contains(&(o as u32)));
            Edge { moves: moves.into(), parallel, target: starts[su] }
        })
        .collect();
    Func { id, name: name.to_string(), nslots: c.nslots, nparams, code: c.code, edges, consts: c.consts }
}

fn scalar_w(t: &Ty) -> u8 {
    match t {
        Ty::Int(w) => *w as u8,
        Ty::Ptr | Ty::F64 => 64,
        Ty::F32 => 32,
        Ty::Vec(_, e) => scalar_w(e),
        Ty::Struct(f, _) => f.first().map(scalar_w).unwrap_or(0),
        Ty::Arr(_, e) => scalar_w(e),
        _ => 0,
    }
}
