//! Executes operations on the real crate and records each one with its result.
use crate::json::{self, bytes, chars, limbs};
use crate::rng::Rng;
use crate::PROGRESS;
use nt_hive::{
    BigDataSlices, Hive, KeyNode, KeyValue, KeyValueData, KeyValues, NtHiveNameString, Result,
    SubKeyNodes,
};
#[cfg(feature = "alloc")]
use nt_hive::RegMultiSZStrings;
use std::cell::RefCell;
use std::cmp::Ordering as Ord3;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use zerocopy::{SplitByteSlice, SplitByteSliceMut};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Out {
    buf: String,
    sync: bool,
    quiet: bool,
    crashed: bool,
    pub lines: usize,
}

impl Out {
    pub fn new(sync: bool) -> Self {
        Out { buf: String::new(), sync, quiet: false, crashed: false, lines: 0 }
    }
    pub fn line(&mut self, s: &str) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        self.lines += 1;
        self.buf.push_str(s);
        self.buf.push('\n');
        if self.quiet {
            self.crashed |= s.contains("\"t\":\"panic\"") || s.contains("999999999");
        } else if self.sync || self.buf.len() > 1 << 20 {
            self.flush();
        }
    }
    /// Records the events of `f` only if one of them is a crash (always in sync mode).
    pub fn only_if_crashing(&mut self, f: impl FnOnce(&mut Out)) -> bool {
        if self.sync {
            f(self);
            return false;
        }
        let outer = std::mem::take(&mut self.buf);
        self.quiet = true;
        self.crashed = false;
        f(self);
        self.quiet = false;
        let inner = std::mem::replace(&mut self.buf, outer);
        if self.crashed {
            self.buf.push_str(&inner);
        }
        self.crashed
    }
    pub fn flush(&mut self) {
        let o = std::io::stdout();
        let mut o = o.lock();
        o.write_all(self.buf.as_bytes()).unwrap();
        o.flush().unwrap();
        self.buf.clear();
    }
    pub fn flush_if_sync(&mut self) {
        if self.sync {
            self.flush();
        }
    }
    /// In sync mode, announces the call about to be made (so that a call that never returns is known).
    pub fn announce(&mut self, s: &str) {
        if self.sync {
            self.buf.push_str("#");
            self.buf.push_str(s);
            self.buf.push('\n');
            self.flush();
        }
    }
}

/// Runs one call; a panic becomes the result "panic".
pub fn guard<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        format!("{{\"t\":\"panic\",\"m\":{}}}", json::quote(&m))
    })
}

const NONE: &str = "{\"t\":\"none\"}";
#[cfg(not(feature = "alloc"))]
const NA: &str = "{\"t\":\"na\"}";

pub fn auto_new<B: SplitByteSlice>(out: &mut Out, f: impl FnOnce() -> Result<Hive<B>>) {
    out.announce("{\"e\":\"op\",\"o\":\"new\"}");
    let r = match guard(f) {
        Ok(Ok(h)) => format!(
            "{{\"t\":\"ok\",{}}}",
            json::version(h.major_version(), h.minor_version())
        ),
        Ok(Err(e)) => json::err(&e),
        Err(p) => p,
    };
    out.line(&format!("{{\"e\":\"op\",\"o\":\"new\",\"r\":{r}}}"));
}

pub fn auto_raw<B: SplitByteSlice>(
    out: &mut Out,
    f: impl FnOnce() -> Result<Hive<B>>,
) -> Option<Hive<B>> {
    out.announce("{\"e\":\"op\",\"o\":\"raw\"}");
    let (r, h) = match guard(f) {
        Ok(Ok(h)) => (
            format!(
                "{{\"t\":\"ok\",{}}}",
                json::version(h.major_version(), h.minor_version())
            ),
            Some(h),
        ),
        Ok(Err(e)) => (json::err(&e), None),
        Err(p) => (p, None),
    };
    out.line(&format!("{{\"e\":\"op\",\"o\":\"raw\",\"r\":{r}}}"));
    h
}

/// Reports which bytes of the buffer differ from the original file.
pub fn end(out: &mut Out, original: &[u8], now: &[u8]) {
    diff(out, "end", original, now);
}

fn diff(out: &mut Out, what: &str, original: &[u8], now: &[u8]) {
    let mut d = Vec::new();
    let n = original.len().min(now.len());
    for start in (0..n).step_by(512) {
        let part = start..n.min(start + 512);
        if original[part.clone()] != now[part.clone()] {
            for i in part {
                if original[i] != now[i] {
                    d.push(format!("[{i},{}]", now[i]));
                }
            }
        }
    }
    out.line(&format!(
        "{{\"e\":\"{what}\",\"n\":{},\"diff\":[{}]}}",
        now.len(),
        d.join(",")
    ));
}

pub enum Iter<'h, B: SplitByteSlice> {
    Sub(SubKeyNodes<'h, B>),
    Val(KeyValues<'h, B>),
    Big(BigDataSlices<'h, B>),
    #[cfg(feature = "alloc")]
    Multi(RegMultiSZStrings<'h, B>),
}

/// What only some kinds of byte slices support.
pub trait Backing: SplitByteSlice + Sized {
    fn clone_key<'h>(_: &KeyNode<'h, Self>) -> Option<KeyNode<'h, Self>> {
        None
    }
    fn clone_value<'h>(_: &KeyValue<'h, Self>) -> Option<KeyValue<'h, Self>> {
        None
    }
    fn clone_iter<'h>(_: &Iter<'h, Self>) -> Option<Iter<'h, Self>> {
        None
    }
    fn clear(_: &mut Hive<Self>) -> Option<Result<()>> {
        None
    }
}

impl Backing for &[u8] {
    fn clone_key<'h>(k: &KeyNode<'h, Self>) -> Option<KeyNode<'h, Self>> {
        Some(k.clone())
    }
    fn clone_value<'h>(v: &KeyValue<'h, Self>) -> Option<KeyValue<'h, Self>> {
        Some(v.clone())
    }
    fn clone_iter<'h>(i: &Iter<'h, Self>) -> Option<Iter<'h, Self>> {
        Some(match i {
            Iter::Sub(x) => Iter::Sub(x.clone()),
            Iter::Val(x) => Iter::Val(x.clone()),
            Iter::Big(x) => Iter::Big(x.clone()),
            #[cfg(feature = "alloc")]
            Iter::Multi(x) => Iter::Multi(x.clone()),
        })
    }
}
fn do_clear<B: SplitByteSliceMut>(h: &mut Hive<B>) -> Option<Result<()>> {
    Some(h.clear_volatile_subkeys())
}
impl Backing for &mut [u8] {
    fn clear(h: &mut Hive<Self>) -> Option<Result<()>> {
        do_clear(h)
    }
}
impl Backing for std::cell::Ref<'_, [u8]> {}
impl Backing for std::cell::RefMut<'_, [u8]> {
    fn clear(h: &mut Hive<Self>) -> Option<Result<()>> {
        do_clear(h)
    }
}

/// One operation: its name, then handle slots / arguments.
#[derive(Clone, Debug)]
pub struct Op<'a> {
    pub o: &'a str,
    pub a: Vec<String>,
}

impl<'a> Op<'a> {
    fn n(&self, i: usize) -> u32 {
        self.a[i].parse().unwrap_or_else(|_| malformed(self))
    }
}

/// A mistake in the scenario is no observation.
fn malformed<T>(op: &Op) -> T {
    eprintln!("MALFORMED {:?}", op);
    std::process::exit(98)
}

pub fn utf8(h: &str) -> String {
    String::from_utf8(crate::unhex(h)).expect("queries are UTF-8")
}

fn hexs(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{b:02x}")).collect()
}

pub struct Sess<'h, B: Backing> {
    hive: &'h Hive<B>,
    hive2: Option<&'h Hive<B>>,
    base: usize,
    keys: BTreeMap<u32, KeyNode<'h, B>>,
    vals: BTreeMap<u32, KeyValue<'h, B>>,
    iters: BTreeMap<u32, Iter<'h, B>>,
    next: u32,
    pool: Vec<String>,
}

type R = String;

fn ok(s: &str) -> R {
    if s.is_empty() {
        "{\"t\":\"ok\"}".into()
    } else {
        format!("{{\"t\":\"ok\",{s}}}")
    }
}

const EQ_CAP: usize = 24;

impl<'h, B: Backing> Sess<'h, B> {
    pub fn new(hive: &'h Hive<B>, hive2: Option<&'h Hive<B>>, base: usize) -> Self {
        Sess {
            hive,
            hive2,
            base,
            keys: BTreeMap::new(),
            vals: BTreeMap::new(),
            iters: BTreeMap::new(),
            next: 1000,
            pool: Vec::new(),
        }
    }

    fn name_r(&self, r: std::result::Result<Result<NtHiveNameString>, String>) -> R {
        match r {
            Ok(Ok(n)) => json::name(&n, self.base),
            Ok(Err(e)) => json::err(&e),
            Err(p) => p,
        }
    }

    /// A key that was handed out: how it names itself, and which live handles it compares equal to.
    fn key_ok(&mut self, slot: u32, k: KeyNode<'h, B>, extra: &str) -> R {
        let nm = self.name_r(guard(|| k.name()));
        #[cfg(feature = "alloc")]
        if let Ok(Ok(Some(s))) = guard(|| k.name().map(|n| n.to_string_checked())) {
            if self.pool.len() < 64 {
                self.pool.push(s);
            }
        }
        self.keys.remove(&slot);
        let mut cand = Vec::new();
        let mut eq = Vec::new();
        for (id, o) in self.keys.iter().rev().take(EQ_CAP) {
            cand.push(id.to_string());
            match guard(|| (*o == k, k == *o, *o != k)) {
                Ok((true, true, false)) => eq.push(id.to_string()),
                Ok((false, false, true)) => (),
                // Asymmetric, or a panic: reported as an impossible slot.
                _ => eq.push("999999999".into()),
            }
        }
        self.keys.insert(slot, k);
        ok(&format!(
            "\"nm\":{nm},\"cd\":[{}],\"eq\":[{}]{extra}",
            cand.join(","),
            eq.join(",")
        ))
    }

    fn val_ok(&mut self, slot: u32, v: KeyValue<'h, B>) -> R {
        let nm = self.name_r(guard(|| v.name()));
        #[cfg(feature = "alloc")]
        if let Ok(Ok(Some(s))) = guard(|| v.name().map(|n| n.to_string_checked())) {
            if self.pool.len() < 64 {
                self.pool.push(s);
            }
        }
        self.vals.remove(&slot);
        let mut cand = Vec::new();
        let mut eq = Vec::new();
        for (id, o) in self.vals.iter().rev().take(EQ_CAP) {
            cand.push(id.to_string());
            match guard(|| (*o == v, v == *o, *o != v)) {
                Ok((true, true, false)) => eq.push(id.to_string()),
                Ok((false, false, true)) => (),
                _ => eq.push("999999999".into()),
            }
        }
        self.vals.insert(slot, v);
        ok(&format!(
            "\"nm\":{nm},\"cd\":[{}],\"eq\":[{}]",
            cand.join(","),
            eq.join(",")
        ))
    }

    fn key_opt(
        &mut self,
        slot: u32,
        r: std::result::Result<Option<Result<KeyNode<'h, B>>>, String>,
    ) -> R {
        self.keys.remove(&slot);
        match r {
            Ok(Some(Ok(k))) => self.key_ok(slot, k, ""),
            Ok(Some(Err(e))) => json::err(&e),
            Ok(None) => NONE.into(),
            Err(p) => p,
        }
    }

    fn val_opt(
        &mut self,
        slot: u32,
        r: std::result::Result<Option<Result<KeyValue<'h, B>>>, String>,
    ) -> R {
        self.vals.remove(&slot);
        match r {
            Ok(Some(Ok(k))) => self.val_ok(slot, k),
            Ok(Some(Err(e))) => json::err(&e),
            Ok(None) => NONE.into(),
            Err(p) => p,
        }
    }

    fn slice_opt(&self, r: std::result::Result<Option<Result<&[u8]>>, String>) -> R {
        match r {
            Ok(Some(Ok(b))) => ok(&json::slice(b, self.base)),
            Ok(Some(Err(e))) => json::err(&e),
            Ok(None) => NONE.into(),
            Err(p) => p,
        }
    }

    #[cfg(feature = "alloc")]
    fn str_opt(&self, r: std::result::Result<Option<Result<String>>, String>) -> R {
        match r {
            Ok(Some(Ok(s))) => ok(&format!("\"s\":{}", chars(&s))),
            Ok(Some(Err(e))) => json::err(&e),
            Ok(None) => NONE.into(),
            Err(p) => p,
        }
    }

    fn text(&self, n: &NtHiveNameString) -> R {
        // Everything the name type can tell about itself.
        let r = guard(|| {
            let disp = format!("{n}");
            #[cfg(feature = "alloc")]
            let (lossy, checked) = (
                chars(&n.to_string_lossy()),
                match n.to_string_checked() {
                    Some(s) => format!("{{\"t\":\"ok\",\"s\":{}}}", chars(&s)),
                    None => NONE.to_string(),
                },
            );
            #[cfg(not(feature = "alloc"))]
            let (lossy, checked) = (NA.to_string(), NA.to_string());
            #[cfg(not(feature = "alloc"))]
            let na = 1;
            #[cfg(feature = "alloc")]
            let na = 0;
            ok(&format!(
                "\"len\":{},\"empty\":{},\"disp\":{},\"na\":{},\"lossy\":{},\"checked\":{}",
                n.len(),
                n.is_empty() as u8,
                chars(&disp),
                na,
                lossy,
                checked
            ))
        });
        r.unwrap_or_else(|p| p)
    }

    /// Performs one operation; returns None if the slots it needs are not there.
    fn exec(&mut self, op: &Op) -> Option<R> {
        let hive = self.hive;
        let res = match op.o {
            "validate" => match guard(|| hive.validate()) {
                Ok(Ok(())) => ok(""),
                Ok(Err(e)) => json::err(&e),
                Err(p) => p,
            },
            "ver" => match guard(|| (hive.major_version(), hive.minor_version())) {
                Ok((a, b)) => ok(&json::version(a, b)),
                Err(p) => p,
            },
            "root" => {
                let r = guard(|| Some(hive.root_key_node()));
                self.key_opt(op.n(0), r)
            }
            "root2" => {
                let h2 = self.hive2?;
                let r = guard(|| Some(h2.root_key_node()));
                self.key_opt(op.n(0), r)
            }
            "kname" => {
                let k = self.keys.get(&op.n(0))?;
                self.name_r(guard(|| k.name()))
            }
            "ktext" => {
                let k = self.keys.get(&op.n(0))?;
                match guard(|| k.name()) {
                    Ok(Ok(n)) => self.text(&n),
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            "kclass" => {
                let k = self.keys.get(&op.n(0))?;
                match guard(|| k.class_name()) {
                    Ok(None) => NONE.into(),
                    Ok(Some(r)) => self.name_r(Ok(r)),
                    Err(p) => p,
                }
            }
            "ktclass" => {
                let k = self.keys.get(&op.n(0))?;
                match guard(|| k.class_name()) {
                    Ok(None) => NONE.into(),
                    Ok(Some(Ok(n))) => self.text(&n),
                    Ok(Some(Err(e))) => json::err(&e),
                    Err(p) => p,
                }
            }
            "subkey" => {
                let k = self.keys.get(&op.n(0))?;
                let q = utf8(&op.a[1]);
                let r = guard(|| k.subkey(&q));
                self.key_opt(op.n(2), r)
            }
            "subpath" => {
                let k = self.keys.get(&op.n(0))?;
                let q = utf8(&op.a[1]);
                let r = guard(|| k.subpath(&q));
                self.key_opt(op.n(2), r)
            }
            "subkeys" => {
                let k = self.keys.get(&op.n(0))?;
                let r = guard(|| k.subkeys());
                self.iters.remove(&op.n(1));
                match r {
                    Ok(None) => NONE.into(),
                    Ok(Some(Ok(i))) => {
                        let form = match i {
                            SubKeyNodes::Leaf(_) => "leaf",
                            SubKeyNodes::IndexRoot(_) => "root",
                        };
                        self.iters.insert(op.n(1), Iter::Sub(i));
                        ok(&format!("\"form\":\"{form}\""))
                    }
                    Ok(Some(Err(e))) => json::err(&e),
                    Err(p) => p,
                }
            }
            "values" => {
                let k = self.keys.get(&op.n(0))?;
                let r = guard(|| k.values());
                self.iters.remove(&op.n(1));
                match r {
                    Ok(None) => NONE.into(),
                    Ok(Some(Ok(i))) => {
                        self.iters.insert(op.n(1), Iter::Val(i));
                        ok("")
                    }
                    Ok(Some(Err(e))) => json::err(&e),
                    Err(p) => p,
                }
            }
            "value" => {
                let k = self.keys.get(&op.n(0))?;
                let q = utf8(&op.a[1]);
                let r = guard(|| k.value(&q));
                self.val_opt(op.n(2), r)
            }
            "kclone" => {
                let k = self.keys.get(&op.n(0))?;
                match guard(|| B::clone_key(k)) {
                    Ok(Some(c)) => self.key_ok(op.n(1), c, ""),
                    Ok(None) => return None,
                    Err(p) => p,
                }
            }
            "vclone" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| B::clone_value(v)) {
                    Ok(Some(c)) => self.val_ok(op.n(1), c),
                    Ok(None) => return None,
                    Err(p) => p,
                }
            }
            "kdrop" => {
                self.keys.remove(&op.n(0))?;
                ok("")
            }
            "vdrop" => {
                self.vals.remove(&op.n(0))?;
                ok("")
            }
            "vname" => {
                let v = self.vals.get(&op.n(0))?;
                self.name_r(guard(|| v.name()))
            }
            "vtext" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| v.name()) {
                    Ok(Ok(n)) => self.text(&n),
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            "vtype" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| v.data_type()) {
                    Ok(Ok(t)) => ok(&format!("\"v\":{}", json::dtype(t))),
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            "vsize" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| v.data_size()) {
                    Ok(n) => ok(&format!("\"v\":{}", limbs(n as u64))),
                    Err(p) => p,
                }
            }
            "vdata" => {
                let v = self.vals.get(&op.n(0))?;
                let r = guard(|| v.data());
                self.iters.remove(&op.n(1));
                match r {
                    Ok(Ok(KeyValueData::Small(b))) => {
                        ok(&format!("\"form\":\"small\",{}", json::slice(b, self.base)))
                    }
                    Ok(Ok(KeyValueData::Big(i))) => {
                        self.iters.insert(op.n(1), Iter::Big(i));
                        ok("\"form\":\"big\"")
                    }
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            "vdword" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| v.dword_data()) {
                    Ok(Ok(n)) => ok(&format!("\"v\":{}", limbs(n as u64))),
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            "vqword" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| v.qword_data()) {
                    Ok(Ok(n)) => ok(&format!("\"v\":{}", limbs(n))),
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            #[cfg(feature = "alloc")]
            "vvec" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| v.data().and_then(|d| d.into_vec())) {
                    Ok(Ok(b)) => ok(&format!(
                        "\"len\":{},\"b\":{}",
                        b.len(),
                        bytes(&b[..b.len().min(70000)])
                    )),
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            #[cfg(feature = "alloc")]
            "vstr" => {
                let v = self.vals.get(&op.n(0))?;
                match guard(|| v.string_data()) {
                    Ok(Ok(s)) => ok(&format!("\"s\":{}", chars(&s))),
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            #[cfg(feature = "alloc")]
            "vmulti" => {
                let v = self.vals.get(&op.n(0))?;
                let r = guard(|| v.multi_string_data());
                self.iters.remove(&op.n(1));
                match r {
                    Ok(Ok(i)) => {
                        self.iters.insert(op.n(1), Iter::Multi(i));
                        ok("")
                    }
                    Ok(Err(e)) => json::err(&e),
                    Err(p) => p,
                }
            }
            #[cfg(not(feature = "alloc"))]
            "vvec" | "vstr" | "vmulti" => return None,
            "next" | "nth" => {
                let mut it = self.iters.remove(&op.n(0))?;
                let n: Option<usize> = if op.o == "nth" {
                    Some(match op.a[1].as_str() {
                        "max" => usize::MAX,
                        "max2" => usize::MAX / 2 + 1,
                        "max4" => usize::MAX / 4 + 1,
                        "max8" => usize::MAX / 8 + 1,
                        "maxseg" => usize::MAX / 16344 + 1,
                        // a distance beyond the pointer width is as far as any
                        s => usize::try_from(s.parse::<u64>().unwrap_or_else(|_| malformed(op))).unwrap_or(usize::MAX),
                    })
                } else {
                    None
                };
                let d = op.n(if op.o == "nth" { 2 } else { 1 });
                let res = match &mut it {
                    Iter::Sub(i) => {
                        let r = guard(|| match n {
                            None => i.next(),
                            Some(n) => i.nth(n),
                        });
                        self.key_opt(d, r)
                    }
                    Iter::Val(i) => {
                        let r = guard(|| match n {
                            None => i.next(),
                            Some(n) => i.nth(n),
                        });
                        self.val_opt(d, r)
                    }
                    Iter::Big(i) => {
                        let r = guard(|| match n {
                            None => i.next(),
                            Some(n) => i.nth(n),
                        });
                        self.slice_opt(r)
                    }
                    #[cfg(feature = "alloc")]
                    Iter::Multi(i) => {
                        let r = guard(|| match n {
                            None => i.next(),
                            Some(n) => i.nth(n),
                        });
                        self.str_opt(r)
                    }
                };
                if !res.starts_with("{\"t\":\"panic\"") {
                    self.iters.insert(op.n(0), it);
                }
                res
            }
            "last" => {
                let it = self.iters.remove(&op.n(0))?;
                let d = op.n(1);
                match it {
                    Iter::Sub(i) => {
                        let r = guard(|| i.last());
                        self.key_opt(d, r)
                    }
                    Iter::Val(i) => {
                        let r = guard(|| i.last());
                        self.val_opt(d, r)
                    }
                    Iter::Big(i) => {
                        let r = guard(|| i.last());
                        self.slice_opt(r)
                    }
                    #[cfg(feature = "alloc")]
                    Iter::Multi(i) => {
                        let r = guard(|| i.last());
                        self.str_opt(r)
                    }
                }
            }
            "count" => {
                let it = self.iters.remove(&op.n(0))?;
                let r = guard(|| match it {
                    Iter::Sub(i) => i.count(),
                    Iter::Val(i) => i.count(),
                    Iter::Big(i) => i.count(),
                    #[cfg(feature = "alloc")]
                    Iter::Multi(i) => i.count(),
                });
                match r {
                    Ok(n) => ok(&format!("\"v\":{}", limbs(n as u64))),
                    Err(p) => p,
                }
            }
            "idrop" => {
                self.iters.remove(&op.n(0))?;
                ok("")
            }
            "hint" => {
                let it = self.iters.get(&op.n(0))?;
                let r = guard(|| match it {
                    Iter::Sub(i) => i.size_hint(),
                    Iter::Val(i) => i.size_hint(),
                    Iter::Big(i) => i.size_hint(),
                    #[cfg(feature = "alloc")]
                    Iter::Multi(i) => i.size_hint(),
                });
                match r {
                    Ok((lo, hi)) => ok(&format!(
                        "\"lo\":{},\"hi\":{}",
                        limbs(lo as u64),
                        hi.map_or("[]".into(), |h| limbs(h as u64))
                    )),
                    Err(p) => p,
                }
            }
            "len" => {
                let it = self.iters.get(&op.n(0))?;
                let r = match it {
                    Iter::Sub(SubKeyNodes::Leaf(i)) => guard(|| i.len()),
                    Iter::Val(i) => guard(|| i.len()),
                    Iter::Big(i) => guard(|| i.len()),
                    _ => return None,
                };
                match r {
                    Ok(n) => ok(&format!("\"v\":{}", limbs(n as u64))),
                    Err(p) => p,
                }
            }
            "clone" => {
                let it = self.iters.get(&op.n(0))?;
                match guard(|| B::clone_iter(it)) {
                    Ok(Some(c)) => {
                        self.iters.insert(op.n(1), c);
                        ok("")
                    }
                    Ok(None) => return None,
                    Err(p) => p,
                }
            }
            "keq" => {
                let (a, b) = (self.keys.get(&op.n(0))?, self.keys.get(&op.n(1))?);
                match guard(|| (a == b, a != b)) {
                    Ok((e, n)) => ok(&format!("\"eq\":{},\"ne\":{}", e as u8, n as u8)),
                    Err(p) => p,
                }
            }
            "veq" => {
                let (a, b) = (self.vals.get(&op.n(0))?, self.vals.get(&op.n(1))?);
                match guard(|| (a == b, a != b)) {
                    Ok((e, n)) => ok(&format!("\"eq\":{},\"ne\":{}", e as u8, n as u8)),
                    Err(p) => p,
                }
            }
            "cmp" => cmp_op(op),
            "casesort" => casesort(),
            "cmpu" => cmpu(op),
            o => panic!("unknown op {o}"),
        };
        Some(res)
    }

    /// Executes and records.
    pub fn run(&mut self, out: &mut Out, op: &Op) -> Option<R> {
        let args: Vec<String> = op
            .a
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let numeric = match op.o {
                    "subkey" | "subpath" | "value" => i != 1,
                    "cmp" | "cmpu" => false,
                    _ => true,
                };
                if numeric && s.bytes().all(|b| b.is_ascii_digit()) {
                    // Distances that do not fit a small integer are logged as 2147483647.
                    if s.len() > 9 {
                        "2147483647".into()
                    } else {
                        s.clone()
                    }
                } else if numeric {
                    "2147483647".into()
                } else if matches!(op.o, "subkey" | "subpath" | "value") {
                    let u: Vec<String> = utf8(s).encode_utf16().map(|u| u.to_string()).collect();
                    format!("[{}]", u.join(","))
                } else {
                    json::quote(s)
                }
            })
            .collect();
        let head = format!("\"e\":\"op\",\"o\":\"{}\",\"a\":[{}]", op.o, args.join(","));
        out.announce(&format!("{{{head}}}"));
        let r = self.exec(op)?;
        out.line(&format!("{{{head},\"r\":{r}}}"));
        Some(r)
    }

    fn slot(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    /// A systematic walk of everything reachable, up to a number of calls.
    pub fn walk(&mut self, out: &mut Out, budget: usize) {
        let limit = out.lines + budget;
        let root = self.slot();
        self.op(out, "root", &[root]);
        let mut queue = vec![root];
        while let Some(k) = if queue.is_empty() { None } else { Some(queue.remove(0)) } {
            if !self.keys.contains_key(&k) || out.lines >= limit {
                continue;
            }
            for o in ["kname", "ktext", "kclass", "ktclass"] {
                self.op(out, o, &[k]);
            }
            let i = self.slot();
            self.op(out, "subkeys", &[k, i]);
            if self.iters.contains_key(&i) {
                self.op(out, "hint", &[i]);
                self.op(out, "len", &[i]);
                let mut children = Vec::new();
                while out.lines < limit {
                    let d = self.slot();
                    match self.op(out, "next", &[i, d]) {
                        Some(r) if r != NONE => children.push(d),
                        _ => break,
                    }
                }
                self.op(out, "next", &[i, k + 500000]);
                self.op(out, "idrop", &[i]);
                #[cfg(feature = "alloc")]
                for d in &children {
                    if out.lines >= limit {
                        break;
                    }
                    let q = match self.keys.get(d).map(|c| guard(|| c.name().map(|n| n.to_string_checked()))) {
                        Some(Ok(Ok(Some(q)))) => q,
                        _ => continue,
                    };
                    let r = self.slot();
                    for o in ["subkey", "subpath"] {
                        let op = Op { o, a: vec![k.to_string(), hexs(&q), r.to_string()] };
                        self.run(out, &op);
                    }
                    self.op(out, "kdrop", &[r]);
                }
                queue.extend(children);
            }
            let i = self.slot();
            self.op(out, "values", &[k, i]);
            if self.iters.contains_key(&i) {
                self.op(out, "hint", &[i]);
                self.op(out, "len", &[i]);
                while out.lines < limit {
                    let d = self.slot();
                    match self.op(out, "next", &[i, d]) {
                        Some(r) if r != NONE => (),
                        _ => break,
                    }
                    self.value_ops(out, k, d);
                    self.op(out, "vdrop", &[d]);
                }
                self.op(out, "next", &[i, k + 500000]);
                self.op(out, "idrop", &[i]);
            }
            self.op(out, "kdrop", &[k]);
        }
    }

    fn value_ops(&mut self, out: &mut Out, k: u32, v: u32) {
        if !self.vals.contains_key(&v) {
            return;
        }
        for o in ["vname", "vtext", "vtype", "vsize", "vvec", "vdword", "vqword", "vstr"] {
            self.op(out, o, &[v]);
        }
        for o in ["vdata", "vmulti"] {
            let i = self.slot();
            self.op(out, o, &[v, i]);
            self.op(out, "hint", &[i]);
            self.op(out, "len", &[i]);
            if self.iters.contains_key(&i) {
                for _ in 0..40 {
                    match self.op(out, "next", &[i, 0]) {
                        Some(r) if r != NONE => (),
                        _ => break,
                    }
                }
                self.op(out, "next", &[i, 0]);
                self.op(out, "idrop", &[i]);
            }
        }
        #[cfg(feature = "alloc")]
        if let Some(Ok(Ok(Some(q)))) =
            self.vals.get(&v).map(|c| guard(|| c.name().map(|n| n.to_string_checked())))
        {
            let r = self.slot();
            let op = Op { o: "value", a: vec![k.to_string(), hexs(&q), r.to_string()] };
            self.run(out, &op);
            self.op(out, "vdrop", &[r]);
        }
        let _ = k;
    }

    fn op(&mut self, out: &mut Out, o: &'static str, a: &[u32]) -> Option<R> {
        let op = Op { o, a: a.iter().map(|x| x.to_string()).collect() };
        self.run(out, &op)
    }

    /// A random history over all live handles.
    pub fn rand(&mut self, out: &mut Out, seed: u64, steps: usize) {
        let mut g = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5bd1e995);
        for _ in 0..steps {
            let keys: Vec<u32> = self.keys.keys().copied().collect();
            let vals: Vec<u32> = self.vals.keys().copied().collect();
            let iters: Vec<u32> = self.iters.keys().copied().collect();
            let s = |x: u32| x.to_string();
            let k = g.pick(&keys).copied();
            let v = g.pick(&vals).copied();
            let i = g.pick(&iters).copied();
            let d = 1 + g.below(12) as u32;
            let q = hexs(&self.query(&mut g));
            let roll = g.below(100);
            let (o, a): (&str, Vec<String>) = match roll {
                0..=5 => ("root", vec![s(d)]),
                6 => ("root2", vec![s(d)]),
                7 => ("validate", vec![]),
                8..=9 => ("kname", vec![s(k.unwrap_or(0))]),
                10 => ("ktext", vec![s(k.unwrap_or(0))]),
                11 => ("kclass", vec![s(k.unwrap_or(0))]),
                12..=19 => ("subkey", vec![s(k.unwrap_or(0)), q, s(d)]),
                20..=25 => ("subpath", vec![s(k.unwrap_or(0)), q, s(d)]),
                26..=33 => ("subkeys", vec![s(k.unwrap_or(0)), s(d)]),
                34..=39 => ("values", vec![s(k.unwrap_or(0)), s(d)]),
                40..=45 => ("value", vec![s(k.unwrap_or(0)), q, s(d)]),
                46..=59 => ("next", vec![s(i.unwrap_or(0)), s(d)]),
                60..=66 => {
                    let n = match g.below(16) {
                        0 => "max".to_string(),
                        1 => "max2".into(),
                        2 => "max4".into(),
                        3 => "max8".into(),
                        4 => "maxseg".into(),
                        5 => "200000000".into(),
                        // a small distance and a multiple of some width
                        x @ 6..=9 => ((1u64 << [8, 16, 31, 32][(x - 6)]) + g.below(3) as u64).to_string(),
                        x => (x - 10).to_string(),
                    };
                    ("nth", vec![s(i.unwrap_or(0)), n, s(d)])
                }
                67 => ("last", vec![s(i.unwrap_or(0)), s(d)]),
                68 => ("count", vec![s(i.unwrap_or(0))]),
                69..=70 => ("hint", vec![s(i.unwrap_or(0))]),
                71 => ("len", vec![s(i.unwrap_or(0))]),
                72..=75 => ("clone", vec![s(i.unwrap_or(0)), s(d)]),
                76 => ("kclone", vec![s(k.unwrap_or(0)), s(d)]),
                77 => ("vclone", vec![s(v.unwrap_or(0)), s(d)]),
                78 => ("keq", vec![s(k.unwrap_or(0)), s(g.pick(&keys).copied().unwrap_or(0))]),
                79 => ("veq", vec![s(v.unwrap_or(0)), s(g.pick(&vals).copied().unwrap_or(0))]),
                80..=81 => ("vname", vec![s(v.unwrap_or(0))]),
                82 => ("vtext", vec![s(v.unwrap_or(0))]),
                83 => ("vtype", vec![s(v.unwrap_or(0))]),
                84 => ("vsize", vec![s(v.unwrap_or(0))]),
                85..=89 => ("vdata", vec![s(v.unwrap_or(0)), s(d)]),
                90 => ("vvec", vec![s(v.unwrap_or(0))]),
                91..=92 => ("vdword", vec![s(v.unwrap_or(0))]),
                93 => ("vqword", vec![s(v.unwrap_or(0))]),
                94..=95 => ("vstr", vec![s(v.unwrap_or(0))]),
                96..=98 => ("vmulti", vec![s(v.unwrap_or(0)), s(d)]),
                _ => ("ktclass", vec![s(k.unwrap_or(0))]),
            };
            let op = Op { o, a };
            self.run(out, &op);
        }
    }

    fn query(&self, g: &mut Rng) -> String {
        let mut s = match g.below(10) {
            0 => String::new(),
            1 => "a".into(),
            2 => "zz".into(),
            _ => g.pick(&self.pool).cloned().unwrap_or_default(),
        };
        match g.below(8) {
            0 => s = s.to_uppercase(),
            1 => s = s.to_lowercase(),
            2 => s.push('\\'),
            3 => s.insert(0, '\\'),
            4 => {
                if let Some(t) = g.pick(&self.pool) {
                    s = format!("{s}\\{t}");
                }
            }
            5 => s.push('~'),
            _ => (),
        }
        s
    }
}

fn ord(o: Ord3) -> i32 {
    match o {
        Ord3::Less => -1,
        Ord3::Equal => 0,
        Ord3::Greater => 1,
    }
}

/// All comparison operators between two operands (each "L", "U" or "S").
fn cmp_all(ea: &str, a: &[u8], eb: &str, b: &[u8]) -> String {
    fn nm<'a>(e: &str, b: &'a [u8]) -> NtHiveNameString<'a> {
        if e == "L" {
            NtHiveNameString::Latin1(b)
        } else {
            NtHiveNameString::Utf16LE(b)
        }
    }
    let mut c: Vec<i32> = Vec::new();
    let mut q: Vec<u8> = Vec::new();
    let mut rel: Vec<[u8; 4]> = Vec::new();
    macro_rules! all {
        ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            c.push(PartialOrd::partial_cmp(x, y).map_or(9, ord));
            q.push((*x == *y) as u8);
            q.push(!(*x != *y) as u8);
            rel.push([(*x < *y) as u8, (*x <= *y) as u8, (*x > *y) as u8, (*x >= *y) as u8]);
        }};
    }
    let r = guard(|| {
        match (ea, eb) {
            ("S", "S") => panic!("no string-string comparison"),
            ("S", _) => {
                let (x, y) = (std::str::from_utf8(a).unwrap(), nm(eb, b));
                all!(x, &y);
                all!(&x, &y);
            }
            (_, "S") => {
                let (x, y) = (nm(ea, a), std::str::from_utf8(b).unwrap());
                all!(&x, y);
                all!(&x, &y);
            }
            _ => {
                let (x, y) = (nm(ea, a), nm(eb, b));
                c.push(ord(Ord::cmp(&x, &y)));
                all!(&x, &y);
                c.push(ord(x.clone().cmp(&y.clone())));
            }
        }
    });
    match r {
        Ok(()) => ok(&format!(
            "\"c\":[{}],\"q\":[{}],\"rel\":[{}]",
            c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            q.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            rel.iter().map(|x| bytes(x)).collect::<Vec<_>>().join(",")
        )),
        Err(p) => p,
    }
}

fn operand_units(e: &str, b: &[u8]) -> Vec<u16> {
    match e {
        "L" => b.iter().map(|x| *x as u16).collect(),
        "U" => b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect(),
        _ => std::str::from_utf8(b).unwrap().encode_utf16().collect(),
    }
}

fn cmp_op(op: &Op) -> R {
    let (a, b) = (crate::unhex(&op.a[1]), crate::unhex(&op.a[3]));
    let r = cmp_all(&op.a[0], &a, &op.a[2], &b);
    // The operands as UTF-16 code units (plain decoding, for the specification to read).
    let u = |e: &str, x: &[u8]| {
        let v: Vec<String> = operand_units(e, x).iter().map(|u| u.to_string()).collect();
        format!("[{}]", v.join(","))
    };
    if let Some(rest) = r.strip_suffix('}') {
        format!("{rest},\"x\":{},\"y\":{}}}", u(&op.a[0], &a), u(&op.a[2], &b))
    } else {
        r
    }
}

/// Every one-unit name, sorted by the library's own order, with the relation of each to its successor.
fn casesort() -> R {
    let r = guard(|| {
        let mut v: Vec<[u8; 2]> = (0..=0xffffu32).map(|u| (u as u16).to_le_bytes()).collect();
        v.sort_by(|a, b| NtHiveNameString::Utf16LE(a).cmp(&NtHiveNameString::Utf16LE(b)));
        let units: Vec<String> =
            v.iter().map(|b| u16::from_le_bytes(*b).to_string()).collect();
        let rel: Vec<String> = v
            .windows(2)
            .map(|w| {
                ord(NtHiveNameString::Utf16LE(&w[0]).cmp(&NtHiveNameString::Utf16LE(&w[1])))
                    .to_string()
            })
            .collect();
        ok(&format!("\"u\":[{}],\"rel\":[{}]", units.join(","), rel.join(",")))
    });
    r.unwrap_or_else(|p| p)
}

/// Compares many pairs of short names: cmpu <encA> <encB> <seed> <n> <mode>; the units and results are logged.
/// The names are <<x>> and <<y>>, or in the last modes put together as `NameA` and `NameB` of the specification.
fn cmpu(op: &Op) -> R {
    let (ea, eb) = (op.a[0].as_str(), op.a[1].as_str());
    let mut g = Rng(op.a[2].parse().unwrap());
    let n: usize = op.a[3].parse().unwrap();
    let mode = op.a[4].as_str();
    let mut x = Vec::new();
    let mut y = Vec::new();
    let mut c = Vec::new();
    let mut q = Vec::new();
    for i in 0..n {
        let unit = i as u32 % 65536;
        let (mut a, mut b) = match mode {
            // Every unit against a neighbour at a fixed distance.
            "near" => (unit, unit ^ [1, 32, 16, 48, 8, 80][(i / 65536) % 6]),
            "next" => (unit, (unit + 1 + (i as u32 / 65536)) % 65536),
            "rand" => (g.below(65536) as u32, g.below(65536) as u32),
            // Every unit next to a letter.
            _ => ([65, 97][g.below(2)] + g.below(26) as u32, unit),
        };
        if ea == "L" || eb == "L" {
            if ea == "L" {
                a &= 0xff;
            }
            if eb == "L" || !matches!(mode, "near" | "next" | "rand") {
                b &= 0xff;
            }
        }
        let (ua, ub) = match mode {
            "tail" => (vec![a], vec![a, b]),
            "lead" => (vec![b, a], vec![b]),
            "more" => (vec![a, b], vec![a]),
            "start" => (vec![b], vec![b, a]),
            "mid" => (vec![a, b, a], vec![a, a]),
            "lack" => (vec![a, a], vec![a, b, a]),
            "swap" => (vec![a, b], vec![b, a]),
            _ => (vec![a], vec![b]),
        };
        let enc = |e: &str, u: &[u32]| -> Option<Vec<u8>> {
            match e {
                "L" => Some(u.iter().map(|u| *u as u8).collect()),
                "U" => Some(u.iter().flat_map(|u| (*u as u16).to_le_bytes()).collect()),
                _ => u
                    .iter()
                    .map(|u| char::from_u32(*u))
                    .collect::<Option<String>>()
                    .map(String::into_bytes),
            }
        };
        let (Some(ba), Some(bb)) = (enc(ea, &ua), enc(eb, &ub)) else {
            continue;
        };
        fn name<'a>(e: &str, b: &'a [u8]) -> NtHiveNameString<'a> {
            if e == "L" {
                NtHiveNameString::Latin1(b)
            } else {
                NtHiveNameString::Utf16LE(b)
            }
        }
        let r = guard(|| match (ea, eb) {
            ("S", _) => {
                let (s, n) = (std::str::from_utf8(&ba).unwrap(), name(eb, &bb));
                (s.partial_cmp(&n).map_or(9, ord), *s == n)
            }
            (_, "S") => {
                let (n, s) = (name(ea, &ba), std::str::from_utf8(&bb).unwrap());
                (n.partial_cmp(s).map_or(9, ord), n == *s)
            }
            _ => {
                let (m, n) = (name(ea, &ba), name(eb, &bb));
                (ord(m.cmp(&n)), m == n)
            }
        });
        match r {
            Ok((o, e)) => {
                x.push(a.to_string());
                y.push(b.to_string());
                c.push(o.to_string());
                q.push((e as u8).to_string());
            }
            Err(p) => return p,
        }
    }
    ok(&format!(
        "\"m\":\"{mode}\",\"x\":[{}],\"y\":[{}],\"c\":[{}],\"q\":[{}]",
        x.join(","),
        y.join(","),
        c.join(","),
        q.join(",")
    ))
}

/// Looks at the raw bytes only, to avoid starting a clear that cannot end (see DESIGN.md, known finding).
fn clear_is_bounded(file: &[u8]) -> bool {
    let rd = |p: usize, n: usize| -> Option<u64> {
        let b = file.get(p..p.checked_add(n)?)?;
        Some(b.iter().rev().fold(0u64, |a, x| a * 256 + *x as u64))
    };
    let mut stack: Vec<(usize, usize)> = Vec::new();
    let mut visits = 0;
    let body = |off: u64| -> Option<usize> {
        if off == 0xffff_ffff { None } else { Some((4100 + off).min(1 << 30) as usize) }
    };
    if let Some(p) = rd(36, 4).and_then(body) {
        stack.push((p, 1));
    }
    while let Some((p, depth)) = stack.pop() {
        visits += 1;
        if visits > 20000 || depth > 600 {
            return false;
        }
        if rd(p, 2) != Some(0x6b6e) {
            continue;
        }
        let Some(l) = rd(p + 28, 4).and_then(body) else { continue };
        let mut lists = vec![];
        match rd(l, 2) {
            Some(0x6972) => {
                for i in 0..rd(l + 2, 2).unwrap_or(0) as usize {
                    match rd(l + 4 + 4 * i, 4).and_then(body) {
                        Some(x) => lists.push(x),
                        None => break,
                    }
                }
            }
            _ => lists.push(l),
        }
        for l in lists {
            let step = match rd(l, 2) {
                Some(0x666c) | Some(0x686c) => 8,
                Some(0x696c) => 4,
                _ => continue,
            };
            for i in 0..rd(l + 2, 2).unwrap_or(0) as usize {
                match rd(l + 4 + step * i, 4).and_then(body) {
                    Some(x) => stack.push((x, depth + 1)),
                    None => break,
                }
                if stack.len() > 40000 {
                    return false;
                }
            }
        }
    }
    true
}

/// Runs the operations of one session, in segments separated by "clear" (which invalidates all handles).
pub fn run_session<B: Backing>(
    out: &mut Out,
    hive: &mut Hive<B>,
    hive2: Option<&Hive<B>>,
    base: usize,
    file: &[u8],
    ops: &[Vec<&str>],
) {
    let mut i = 0;
    while i < ops.len() {
        if ops[i][0] == "clear" {
            if !std::env::args().any(|a| a == "--force-clear") && !clear_is_bounded(file) {
                out.line("{\"e\":\"clearskip\"}");
                return;
            }
            out.announce("{\"e\":\"op\",\"o\":\"clear\",\"a\":[]}");
            let r = match guard(|| B::clear(hive)) {
                Ok(None) => {
                    i += 1;
                    continue;
                }
                Ok(Some(Ok(()))) => ok(""),
                Ok(Some(Err(e))) => json::err(&e),
                Err(p) => p,
            };
            out.line(&format!("{{\"e\":\"op\",\"o\":\"clear\",\"a\":[],\"r\":{r}}}"));
            i += 1;
            continue;
        }
        let mut s = Sess::new(&*hive, hive2_of(hive2), base);
        while i < ops.len() && ops[i][0] != "clear" {
            let t = &ops[i];
            match t[0] {
                "walk" => s.walk(out, t[1].parse().unwrap()),
                "rand" => s.rand(out, t[1].parse().unwrap(), t[2].parse().unwrap()),
                o => {
                    let op = Op { o, a: t[1..].iter().map(|x| x.to_string()).collect() };
                    s.run(out, &op);
                }
            }
            i += 1;
        }
    }
}

fn hive2_of<T>(x: Option<T>) -> Option<T> {
    x
}
