//! The judge for whole modules: runs whasm and the reference on the same bytes
//! and compares what the property in question talks about.
use crate::dec::{self, DErr};
use crate::imp::{self, PErr};
use crate::mon::{self, count, guard};
use crate::rast::*;
use crate::val;

/// What a property lets the judge look at.
pub mod asp {
    pub const ACC: u32 = 1;      // parses iff well-formed
    pub const CONTENT: u32 = 2;  // parsed content
    pub const ERR: u32 = 4;      // kind of parse error
    pub const SOUND: u32 = 8;    // invalid => not accepted
    pub const COMPLETE: u32 = 16; // valid => accepted
    pub const EXT: u32 = 32;     // reported external types
    pub const BOTH: u32 = SOUND | COMPLETE;
}

/// One judged case.
#[derive(Default)]
pub struct J {
    pub bad: Option<String>,
    /// a smaller case that shows the same thing: (stream, data)
    pub replay: Option<(&'static str, Vec<u8>)>,
    pub evals: u64,
    pub nontrivial: u64,
    /// non-trivial cases are distinct by construction within this case
    pub note: Option<String>,
    /// a measured figure whose maximum is reported
    pub ratio: f64,
}
impl J {
    pub fn ok(nontrivial: bool) -> J { J { evals: 1, nontrivial: nontrivial as u64, ..Default::default() } }
    pub fn bad(m: impl Into<String>) -> J { J { evals: 1, nontrivial: 1, bad: Some(m.into()), ..Default::default() } }
    pub fn batch() -> J { J::default() }
    /// Add an inner case of a batch.
    pub fn add(&mut self, stream: &'static str, data: &[u8], j: J) {
        self.evals += j.evals;
        self.nontrivial += j.nontrivial;
        if j.ratio > self.ratio { self.ratio = j.ratio; }
        if let (None, Some(m)) = (&self.bad, j.bad) {
            self.bad = Some(m);
            self.replay = Some(j.replay.unwrap_or((stream, data.to_vec())));
        }
    }
}

pub struct Obs {
    pub parsed: Result<RModule, PErr>,
    pub valid: Option<Result<(Vec<RExt>, Vec<RExt>), String>>,
}

/// Run the code under test on `b`. Err: it panicked.
pub fn observe(b: &[u8], validate: bool) -> Result<Obs, String> {
    let m = guard(|| imp::parse(b)).map_err(|e| format!("parsing {}", e))?;
    match m {
        Err(e) => Ok(Obs { parsed: Err(e), valid: None }),
        Ok(m) => {
            let c = imp::conv(&m);
            let valid = if validate { Some(guard(|| imp::validate(&m)).map_err(|e| format!("validating {}", e))?) } else { None };
            guard(move || drop(m)).map_err(|e| format!("dropping {}", e))?;
            Ok(Obs { parsed: Ok(c), valid })
        }
    }
}

/// Does the reported error fit the fault? None: not judged.
pub fn err_fits(d: &DErr, e: &PErr) -> Option<bool> {
    Some(match d {
        DErr::Eof => matches!(e, PErr::UnexpectedEndOfFile),
        DErr::LebU => matches!(e, PErr::OutOfRangeUnsignedInteger),
        DErr::LebS => matches!(e, PErr::OutOfRangeSignedInteger),
        DErr::EofOrLeb => matches!(e, PErr::UnexpectedEndOfFile | PErr::OutOfRangeUnsignedInteger | PErr::OutOfRangeSignedInteger),
        DErr::Utf8 => matches!(e, PErr::InvalidUtf8Encoding),
        DErr::Magic => matches!(e, PErr::InvalidPreambleMagic),
        DErr::Version => matches!(e, PErr::InvalidPreambleVersion),
        DErr::SecOrder(i) => matches!(e, PErr::UnexpectedSectionId { id } if id.0 == *i),
        DErr::SecId(i) => matches!(e, PErr::InvalidSectionId { id } if id.0 == *i),
        DErr::Size => matches!(e, PErr::SizeMissmatch),
        DErr::SizeOrEof => matches!(e, PErr::SizeMissmatch | PErr::UnexpectedEndOfFile),
        DErr::Tag(i) => matches!(e, PErr::InvalidVariantId { id, .. } if id == i),
        DErr::Else => matches!(e, PErr::UnexpectedOpcode { .. }),
        DErr::FuncCount | DErr::Locals => return None,
    })
}

pub fn derr_name(d: &DErr) -> &'static str {
    match d {
        DErr::Eof => "end of input",
        DErr::LebU => "unsigned out of range",
        DErr::LebS => "signed out of range",
        DErr::EofOrLeb => "end of input in an over-long integer",
        DErr::Utf8 => "invalid UTF-8",
        DErr::Magic => "magic",
        DErr::Version => "version",
        DErr::SecOrder(_) => "section order",
        DErr::SecId(_) => "section id",
        DErr::Size => "size mismatch",
        DErr::SizeOrEof => "custom section longer than input",
        DErr::Tag(_) => "unknown tag or opcode",
        DErr::Else => "misplaced else",
        DErr::FuncCount => "function/body count",
        DErr::Locals => "too many locals",
    }
}

pub const MANY: u64 = 4_000_000;

pub fn module(b: &[u8], a: u32) -> J {
    let mut cur = dec::Cur::new(b);
    let r = cur.module();
    let validate = a & (asp::BOTH | asp::EXT) != 0;
    // the code under test stores locals one by one: keep the workload within memory
    if cur.locals > MANY { count("skipped: too many locals to expand", 1); return J::ok(false); }
    let o = match observe(b, validate) { Ok(o) => o, Err(e) => return J::bad(e) };
    match (&r, &o.parsed) {
        (Err(d), Err(e)) => {
            count(&format!("malformed: {}", derr_name(d)), 1);
            if a & asp::ERR != 0 {
                if matches!(e, PErr::OutOfRangeUnsignedInteger) && e.to_string() == PErr::OutOfRangeSignedInteger.to_string() {
                    return J::bad(format!("an out-of-range unsigned integer is described as: {}", e));
                }
                if err_fits(d, e) == Some(false) {
                    return J::bad(format!("the fault is {:?} at offset {}, but the error is {:?}", d, cur.p, e));
                }
            }
            J::ok(a & (asp::ACC | asp::ERR) != 0)
        }
        (Err(d), Ok(_)) => {
            count(&format!("malformed: {}", derr_name(d)), 1);
            if a & (asp::ACC | asp::ERR) != 0 { return J::bad(format!("malformed input accepted by parsing: {:?} at offset {}", d, cur.p)); }
            J::ok(false)
        }
        (Ok(_), Err(e)) => {
            count("well-formed", 1);
            if a & (asp::ACC | asp::CONTENT) != 0 { return J::bad(format!("well-formed module rejected by parsing: {:?}", e)); }
            if a & (asp::COMPLETE | asp::EXT) != 0 && val::validate(r.as_ref().unwrap()).is_ok() {
                return J::bad(format!("valid module rejected by parsing: {:?}", e));
            }
            J::ok(false)
        }
        (Ok(r), Ok(c)) => {
            count("well-formed", 1);
            if a & asp::CONTENT != 0 {
                if let Some(d) = diff(r, c) { return J::bad(format!("parsed content differs: {}", d)); }
            }
            if !validate { return J::ok(true); }
            let v = o.valid.unwrap();
            match (val::validate(r), v) {
                (Ok((ri, re)), Ok((gi, ge))) => {
                    count("valid", 1);
                    if a & asp::EXT != 0 {
                        if ri != gi { return J::bad(mismatch("import", &ri, &gi)); }
                        if re != ge { return J::bad(mismatch("export", &re, &ge)); }
                        return J::ok(!ri.is_empty() || !re.is_empty());
                    }
                    J::ok(a & asp::COMPLETE != 0)
                }
                (Ok(_), Err(e)) => {
                    count("valid", 1);
                    if a & (asp::COMPLETE | asp::EXT) != 0 { return J::bad(format!("valid module rejected by validation: {}", e)); }
                    J::ok(false)
                }
                (Err(w), Ok(_)) => {
                    count(&format!("invalid: {}", w), 1);
                    if a & asp::SOUND != 0 { return J::bad(format!("invalid module accepted: {}", w)); }
                    J::ok(false)
                }
                (Err(w), Err(_)) => {
                    count(&format!("invalid: {}", w), 1);
                    J::ok(a & asp::SOUND != 0)
                }
            }
        }
    }
}

fn mismatch(what: &str, r: &[RExt], g: &[RExt]) -> String {
    if r.len() != g.len() { return format!("{} external types: expected {}, got {}", what, r.len(), g.len()); }
    for (i, (x, y)) in r.iter().zip(g).enumerate() {
        if x != y { let mut s = format!("{} {}: expected {:?}, got {:?}", what, i, x, y); s.truncate(600); return s; }
    }
    "equal".into()
}

/// Termination and absence of panics only.
pub fn survives(b: &[u8]) -> J {
    let r = guard(|| {
        let mut s = mon::Src::new(b);
        let m = whasm::binary::WasmBinary::parse::<whasm::structure::module::Module>(&mut s);
        match m {
            Ok(m) => {
                let v = whasm::validation::ValidationEntry::validate(&m).is_ok();
                (true, v)
            }
            Err(e) => { let _ = format!("{} {:?}", e, e); (false, false) }
        }
    });
    match r {
        Ok((p, v)) => {
            count(if v { "valid" } else if p { "parsed, invalid" } else { "malformed" }, 1);
            J::ok(true)
        }
        Err(e) => J::bad(e),
    }
}
