// Conformance driver. It is compiled into the fix-rs binary crate through the
// cfg(fix_verif) hook in src/main.rs (the crate has no library target), reads
// commands (one JSON object per line) from the file named by FIX_VERIF_IN and
// appends one JSON object per command to the file named by FIX_VERIF_OUT.
// It only uses items which are visible inside the crate and judges nothing: it
// records what the code did, the verdict is the specification's.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::application::Application;
use crate::data_dictionary::{DataDictionary, GroupInfo};
use crate::message::{FieldMap, Message, StringField};
use crate::network::{SessionMap, SocketAcceptor};
use crate::session::*;

// ---------------------------------------------------------------- allocation
struct Counting;
static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn bump(n: i64) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(c, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

fn peak_reset() -> i64 {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}

// --------------------------------------------------------------------- clock
// The harness owns the wall clock of this process: a thread may pin it.
thread_local! {
    static FAKE: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
static SKIPPED: AtomicI64 = AtomicI64::new(0);
extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut i64) -> i32 {
    if clk == 0 {
        if let Ok(Some((s, n))) = FAKE.try_with(|f| f.get()) {
            *ts = s;
            *ts.add(1) = n;
            return 0;
        }
    }
    let r = syscall(228, clk as i64, ts) as i32;
    // time that did not really pass (clocks of the machine, not CPU times)
    if matches!(clk, 0 | 1 | 4 | 5 | 6 | 7) {
        *ts += SKIPPED.load(SeqCst);
    }
    r
}

// ---------------------------------------------------------------------- json
#[derive(Debug, Clone)]
enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

static JNULL: J = J::Null;

thread_local! {
    static OWN_PANIC: Cell<bool> = const { Cell::new(true) };
}

impl J {
    fn get(&self, k: &str) -> &J {
        if let J::O(v) = self {
            for (n, x) in v {
                if n == k {
                    return x;
                }
            }
        }
        &JNULL
    }
    fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => 0,
        }
    }
    fn b(&self) -> bool {
        matches!(self, J::B(true))
    }
    fn a(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    fn parse(t: &str) -> J {
        let b = t.as_bytes();
        let mut i = 0;
        pj(b, &mut i)
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}
fn pj(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::O(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match pj(b, i) {
                    J::S(s) => s,
                    _ => panic!("json key"),
                };
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                let x = pj(b, i);
                v.push((k, x));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::A(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(pj(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut out: Vec<u8> = vec![];
            loop {
                match b[*i] {
                    b'"' => {
                        *i += 1;
                        return J::S(String::from_utf8(out).unwrap());
                    }
                    b'\\' => {
                        *i += 1;
                        let c = match b[*i] {
                            b'n' => '\n',
                            b't' => '\t',
                            b'r' => '\r',
                            b'u' => {
                                let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                                *i += 4;
                                char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()
                            }
                            c => c as char,
                        };
                        *i += 1;
                        let mut buf = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                    }
                    c => {
                        out.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
        }
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn unhex_str(s: &str) -> String {
    String::from_utf8(unhex(s)).expect("harness: text must be UTF-8")
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

// ------------------------------------------------------------------ messages
/// everything that can be seen in a field map through its public interface:
/// fields, groups with their instances, and the number of written fields
fn dump_fm(fm: &FieldMap, tags: &BTreeSet<u32>) -> String {
    let mut cand: BTreeSet<u32> = tags.clone();
    let mut n = 0;
    for f in fm.iter() {
        cand.insert(f.tag());
        n += 1;
    }
    let mut f = vec![];
    let mut g = vec![];
    for t in cand.iter() {
        if let Ok(v) = fm.get_field::<String>(*t) {
            f.push(format!("[\"{}\",\"{}\"]", t, hex(v.as_bytes())));
        }
        if let Some(grp) = fm.get_group(*t) {
            let insts: Vec<String> =
                (0..grp.size()).map(|i| dump_fm(&grp[i as usize], &cand)).collect();
            g.push(format!("[\"{}\",[{}]]", t, insts.join(",")));
        }
    }
    format!("{{\"f\":[{}],\"g\":[{}],\"n\":{}}}", f.join(","), g.join(","), n)
}

/// the text in a file of its own, which is removed afterwards
fn with_file<T>(text: &str, f: impl FnOnce(&str) -> T) -> T {
    let name = format!("{}.file", std::env::var("FIX_VERIF_OUT").unwrap());
    std::fs::write(&name, text).expect("harness: cannot write");
    let r = f(&name);
    std::fs::remove_file(&name).expect("harness: cannot remove");
    r
}

fn tags_of(text: &str) -> BTreeSet<u32> {
    text.split('\u{1}')
        .filter_map(|f| f.split_once('=').and_then(|(t, _)| t.parse::<u32>().ok()))
        .collect()
}

fn dump_msg(m: &Message, tags: &BTreeSet<u32>) -> String {
    format!(
        "\"h\":{},\"b\":{},\"t\":{}",
        dump_fm(m.header(), tags),
        dump_fm(m.body(), tags),
        dump_fm(m.trailer(), tags)
    )
}

/// the reason as it is shown to users of the error ("... Reason - Kind")
fn reason(e: &crate::quickfix_errors::SessionRejectError) -> String {
    e.to_string().rsplit(' ').next().unwrap_or("").to_string()
}

/// runs f on a thread with the stack a thread has unless told otherwise
fn small_stack<T: Send, F: FnOnce() -> T + Send>(f: F) -> std::thread::Result<T> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || catch_unwind(AssertUnwindSafe(f)))
            .unwrap()
            .join()
            .unwrap()
    })
}

fn parse_text(text: &str, dd: &DataDictionary, brief: bool) -> String {
    let base = peak_reset();
    let t0 = Instant::now();
    let r = small_stack(|| Message::from_str(text, dd));
    let ms = t0.elapsed().as_millis();
    let mem = PEAK.load(Relaxed) - base;
    match r {
        Err(e) => format!("{{\"r\":\"panic\",\"m\":{},\"mem\":{}}}", q(&panic_text(e)), mem),
        Ok(Err(e)) => format!("{{\"r\":\"rej\",\"k\":{},\"mem\":{},\"ms\":{}}}", q(&reason(&e)), mem, ms),
        Ok(Ok(m)) if brief => {
            let fields: usize = [m.header(), m.body(), m.trailer()].iter().map(|f| f.iter().into_iter().count()).sum();
            let insts: u32 = tags_of(text)
                .iter()
                .flat_map(|t| [m.header(), m.body(), m.trailer()].into_iter().filter_map(move |f| f.get_group(*t)))
                .map(|g| g.size())
                .sum();
            format!("{{\"r\":\"ok\",\"mem\":{},\"ms\":{},\"fields\":{},\"insts\":{}}}", mem, ms, fields, insts)
        }
        Ok(Ok(m)) => {
            let p = hex(m.to_string().as_bytes());
            format!(
                "{{\"r\":\"ok\",{},\"p\":\"{}\",\"mem\":{},\"ms\":{}}}",
                dump_msg(&m, &tags_of(text)),
                p,
                mem,
                ms
            )
        }
    }
}

fn sid_json(s: &SessionId) -> String {
    let o = |x: &Option<String>| match x {
        Some(v) => format!("[\"{}\"]", hex(v.as_bytes())),
        None => "[]".to_string(),
    };
    format!(
        "{{\"begin\":\"{}\",\"snd\":\"{}\",\"ssub\":{},\"sloc\":{},\"tgt\":\"{}\",\"tsub\":{},\"tloc\":{},\"disp\":\"{}\"}}",
        hex(s.begin_string().as_bytes()),
        hex(s.sender_compid().as_bytes()),
        o(s.sender_subid()),
        o(s.sender_locationid()),
        hex(s.target_compid().as_bytes()),
        o(s.target_subid()),
        o(s.target_locationid()),
        hex(s.to_string().as_bytes())
    )
}

fn mk_sid(j: &J) -> SessionId {
    let mut b = SessionIdBuilder::new(j.get("begin").s(), j.get("snd").s(), j.get("tgt").s());
    if j.has("ssub") {
        b.sender_subid(j.get("ssub").s());
    }
    if j.has("sloc") {
        b.sender_locationid(j.get("sloc").s());
    }
    if j.has("tsub") {
        b.target_subid(j.get("tsub").s());
    }
    if j.has("tloc") {
        b.target_locationid(j.get("tloc").s());
    }
    b.build().unwrap()
}

fn fill(fm: &mut FieldMap, j: &J) {
    if j.has("order") {
        let o: Vec<u32> = j.get("order").a().iter().map(|x| x.n() as u32).collect();
        fm.set_field_order(&o);
    }
    for s in j.get("items").a() {
        if s.has("n") {
            let g = fm.set_group(s.get("t").n() as u32, s.get("n").n() as u32, s.get("d").n() as u32);
            fill_group(g, s);
        } else {
            fm.set_field(StringField::new(s.get("t").n() as u32, &unhex_str(s.get("v").s())));
        }
    }
}
fn fill_group(g: &mut crate::message::Group, s: &J) {
    for (i, inst) in s.get("insts").a().iter().enumerate() {
        fill(&mut g[i], inst);
    }
}

fn section<'a>(m: &'a mut Message, s: &str) -> &'a mut FieldMap {
    match s {
        "h" => m.header_mut(),
        "t" => m.trailer_mut(),
        _ => m.body_mut(),
    }
}
fn section_ref<'a>(m: &'a Message, s: &str) -> &'a FieldMap {
    match s {
        "h" => m.header(),
        "t" => m.trailer(),
        _ => m.body(),
    }
}
/// walks [tag, index, tag, index...] from a section, None if there is no such instance
fn walk<'a>(m: &'a Message, sec: &str, path: &[J]) -> Option<&'a FieldMap> {
    let mut fm = section_ref(m, sec);
    for p in path.chunks(2) {
        let g = fm.get_group(p[0].n() as u32)?;
        if p[1].n() as u32 >= g.size() {
            return None;
        }
        fm = &g[p[1].n() as usize];
    }
    Some(fm)
}

fn get_as(ty: &str, r: impl Fn(&str) -> Option<Result<String, String>>) -> String {
    match r(ty) {
        None => "[\"nopath\"]".into(),
        Some(Ok(v)) => format!("[\"ok\",\"{}\"]", hex(v.as_bytes())),
        Some(Err(e)) => "[\"err\"]".into(),
    }
}
fn typed<F: Fn() -> Result<T, String>, T: ToString>(f: F) -> Result<String, String> {
    f().map(|v| v.to_string())
}
fn fm_get(fm: &FieldMap, tag: u32, ty: &str) -> Result<String, String> {
    match ty {
        "u32" => typed(|| fm.get_field::<u32>(tag)),
        "i64" => typed(|| fm.get_field::<i64>(tag)),
        "u8" => typed(|| fm.get_field::<u8>(tag)),
        "u16" => typed(|| fm.get_field::<u16>(tag)),
        "u64" => typed(|| fm.get_field::<u64>(tag)),
        "usize" => typed(|| fm.get_field::<usize>(tag)),
        "i8" => typed(|| fm.get_field::<i8>(tag)),
        "i32" => typed(|| fm.get_field::<i32>(tag)),
        "bool" => typed(|| fm.get_field::<bool>(tag)),
        "char" => typed(|| fm.get_field::<char>(tag)),
        _ => typed(|| fm.get_field::<String>(tag)),
    }
}
fn msg_get(m: &Message, tag: u32, ty: &str) -> Result<String, String> {
    match ty {
        "u32" => typed(|| m.get_field::<u32>(tag)),
        "i64" => typed(|| m.get_field::<i64>(tag)),
        "u8" => typed(|| m.get_field::<u8>(tag)),
        "u16" => typed(|| m.get_field::<u16>(tag)),
        "u64" => typed(|| m.get_field::<u64>(tag)),
        "usize" => typed(|| m.get_field::<usize>(tag)),
        "i8" => typed(|| m.get_field::<i8>(tag)),
        "i32" => typed(|| m.get_field::<i32>(tag)),
        "bool" => typed(|| m.get_field::<bool>(tag)),
        "char" => typed(|| m.get_field::<char>(tag)),
        _ => typed(|| m.get_field::<String>(tag)),
    }
}

fn build(cmd: &J, dicts: &HashMap<String, DataDictionary>) -> String {
    let mut regs: BTreeMap<i64, Message> = BTreeMap::new();
    let mut out = vec![];
    for st in cmd.get("steps").a() {
        let mi = st.get("m").n();
        let o = st.get("o").s();
        let r = catch_unwind(AssertUnwindSafe(|| -> String {
            match o {
                "new" => {
                    regs.insert(mi, Message::new());
                    "null".into()
                }
                "clone" => {
                    let c = regs[&st.get("from").n()].clone();
                    regs.insert(mi, c);
                    "null".into()
                }
                "set" => {
                    let f = StringField::new(st.get("t").n() as u32, &unhex_str(st.get("v").s()));
                    let m = regs.get_mut(&mi).unwrap();
                    if st.get("via").s() == "msg" {
                        m.set_field(f);
                    } else {
                        section(m, st.get("s").s()).set_field(f);
                    }
                    "null".into()
                }
                "grp" => {
                    let m = regs.get_mut(&mi).unwrap();
                    let (t, n, d) =
                        (st.get("t").n() as u32, st.get("n").n() as u32, st.get("d").n() as u32);
                    if st.get("via").s() == "msg" {
                        fill_group(m.set_group(t, n, d), st);
                    } else {
                        fill_group(section(m, st.get("s").s()).set_group(t, n, d), st);
                    }
                    "null".into()
                }
                "load" => {
                    let text = unhex_str(st.get("b").s());
                    match Message::from_str(&text, &dicts[st.get("dict").s()]) {
                        Ok(m) => {
                            regs.insert(mi, m);
                            "1".into()
                        }
                        Err(_) => "0".into(),
                    }
                }
                "order" => {
                    let ord: Vec<u32> =
                        st.get("order").a().iter().map(|x| x.n() as u32).collect();
                    section(regs.get_mut(&mi).unwrap(), st.get("s").s()).set_field_order(&ord);
                    "null".into()
                }
                "get" => {
                    let m = &regs[&mi];
                    let tag = st.get("t").n() as u32;
                    get_as(st.get("ty").s(), |ty| {
                        if st.get("via").s() == "msg" {
                            Some(msg_get(m, tag, ty))
                        } else {
                            walk(m, st.get("s").s(), st.get("path").a()).map(|fm| fm_get(fm, tag, ty))
                        }
                    })
                }
                "size" => {
                    let m = &regs[&mi];
                    let tag = st.get("t").n() as u32;
                    if st.get("via").s() == "msg" {
                        m.get_group(tag).map_or("-1".into(), |g| g.size().to_string())
                    } else {
                        walk(m, st.get("s").s(), st.get("path").a())
                            .and_then(|fm| fm.get_group(tag))
                            .map_or("-1".into(), |g| g.size().to_string())
                    }
                }
                "len" => {
                    regs.get_mut(&mi).unwrap().set_body_len();
                    "null".into()
                }
                "sum" => {
                    regs.get_mut(&mi).unwrap().set_checksum();
                    "null".into()
                }
                "time" => {
                    FAKE.with(|f| f.set(Some((st.get("sec").n(), st.get("ns").n()))));
                    regs.get_mut(&mi).unwrap().set_sending_time();
                    FAKE.with(|f| f.set(None));
                    "null".into()
                }
                "fill" => {
                    let v = unhex_str(st.get("v").s()).repeat(st.get("times").n() as usize);
                    let f = StringField::new(st.get("t").n() as u32, &v);
                    section(regs.get_mut(&mi).unwrap(), st.get("s").s()).set_field(f);
                    "null".into()
                }
                // the text as runs of equal bytes
                "runs" => {
                    let mut runs: Vec<(u8, u64)> = vec![];
                    for b in regs[&mi].to_string().bytes() {
                        match runs.last_mut() {
                            Some(r) if r.0 == b => r.1 += 1,
                            _ => runs.push((b, 1)),
                        }
                    }
                    let l: Vec<String> = runs.iter().map(|r| format!("[{},{}]", r.0, r.1)).collect();
                    format!("[{}]", l.join(","))
                }
                "print" => format!("\"{}\"", hex(regs[&mi].to_string().as_bytes())),
                "dump" => format!("{{{}}}", dump_msg(&regs[&mi], &BTreeSet::new())),
                "reparse" => {
                    let text = regs[&mi].to_string();
                    parse_text(&text, &dicts[st.get("dict").s()], false)
                }
                _ => panic!("harness: unknown step {}", o),
            }
        }));
        FAKE.with(|f| f.set(None));
        match r {
            Ok(s) => out.push(s),
            Err(e) => {
                out.push(format!("{{\"r\":\"panic\",\"m\":{}}}", q(&panic_text(e))));
                break;
            }
        }
    }
    format!("{{\"obs\":[{}]}}", out.join(","))
}

// ---------------------------------------------------------------- dictionary
fn set_json<'a, I: Iterator<Item = &'a u32>>(it: I) -> String {
    let mut v: Vec<u32> = it.copied().collect();
    v.sort_unstable();
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}

fn dump_dict(dd: &DataDictionary, mt: &str, tags: &[u32]) -> String {
    let mut g = vec![];
    let mut disagree = vec![];
    for t in tags {
        if dd.is_msg_group(mt, *t) != dd.get_msg_group(mt, *t).is_some() {
            disagree.push(*t);
        }
        if let Some(gi) = dd.get_msg_group(mt, *t) {
            g.push(format!("\"{}\":{}", t, dump_group(gi, mt, tags)));
        }
        let in_set = dd.get_msg_fields(mt).map_or(false, |s| s.contains(t));
        let in_req = dd.get_msg_required_field(mt).map_or(false, |s| s.contains(t));
        if in_set != dd.is_msg_field(mt, *t) || in_req != dd.is_msg_req_field(mt, *t) {
            disagree.push(*t);
        }
    }
    format!(
        "{{\"f\":{},\"q\":{},\"g\":{{{}}},\"known\":{},\"disagree\":{}}}",
        dd.get_msg_fields(mt).map_or("[]".into(), |s| set_json(s.iter())),
        dd.get_msg_required_field(mt).map_or("[]".into(), |s| set_json(s.iter())),
        g.join(","),
        dd.get_msg_fields(mt).is_some(),
        set_json(disagree.iter())
    )
}
fn dump_group(gi: &GroupInfo, mt: &str, tags: &[u32]) -> String {
    let d = gi.data_dictionary();
    format!(
        "{{\"delim\":\"{}\",\"order\":[{}],\"in\":{}}}",
        gi.delimiter(),
        d.get_ordered_fields()
            .iter()
            .map(|x| format!("\"{}\"", x))
            .collect::<Vec<_>>()
            .join(","),
        dump_dict(d, mt, tags)
    )
}

fn err_kind(e: &crate::quickfix_errors::XmlError) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect()
}

fn dict_dump(cmd: &J, dd: &DataDictionary) -> String {
    let tags: Vec<u32> = cmd.get("tags").a().iter().map(|x| x.n() as u32).collect();
    let mut o = String::from("{\"types\":{");
    for (i, mt) in cmd.get("types").a().iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}:{}", q(mt.s()), dump_dict(dd, mt.s(), &tags)).unwrap();
    }
    o.push_str("},\"hdr\":");
    o.push_str(&set_json(tags.iter().filter(|t| dd.is_header_field(**t))));
    o.push_str(",\"trl\":");
    o.push_str(&set_json(tags.iter().filter(|t| dd.is_trailer_field(**t))));
    o.push_str(",\"ft\":{");
    let mut first = true;
    for t in &tags {
        if let Some(ft) = dd.get_field_type(*t) {
            if !first {
                o.push(',');
            }
            first = false;
            write!(o, "\"{}\":{}", t, q(&ft.to_string())).unwrap();
        }
    }
    o.push_str("},\"fv\":{");
    let mut first = true;
    for t in &tags {
        if let Some(vs) = dd.get_field_values(*t) {
            if !first {
                o.push(',');
            }
            first = false;
            let mut v: Vec<String> = vs.iter().map(|s| q(s)).collect();
            v.sort();
            write!(o, "\"{}\":[{}]", t, v.join(",")).unwrap();
        }
    }
    o.push_str("}}");
    o
}

// ------------------------------------------------------------- configuration
fn cfg(cmd: &J) -> String {
    let text = cmd.get("text").s().to_string();
    let p = match catch_unwind(AssertUnwindSafe(|| {
        if cmd.has("file") {
            with_file(&text, |f| Properties::new(f))
        } else {
            Properties::from_str(&text)
        }
    })) {
        Ok(p) => p,
        Err(e) => return format!("{{\"r\":\"refused\",\"m\":{}}}", q(&panic_text(e))),
    };
    let mut sids: Vec<SessionId> = p.session_ids().into_iter().cloned().collect();
    sids.sort_by_key(|s| s.to_string());
    let names = cmd.get("names").a();
    let val = |r: std::thread::Result<Option<String>>| match r {
        Err(_) => "[\"panic\"]".to_string(),
        Ok(None) => "[]".to_string(),
        Ok(Some(v)) => format!("[\"v\",\"{}\"]", hex(v.as_bytes())),
    };
    let mut ss = vec![];
    for sid in &sids {
        let mut own = vec![];
        let mut eff = vec![];
        let mut eff2 = vec![];
        let mut own2 = vec![];
        let mut num = vec![];
        for n in names {
            let n = n.s();
            own.push(val(catch_unwind(AssertUnwindSafe(|| p.get_property(sid, n).cloned()))));
            own2.push(val(catch_unwind(AssertUnwindSafe(|| p.get_config::<String>(sid, n).ok()))));
            eff.push(val(catch_unwind(AssertUnwindSafe(|| p.get_optional_config::<String>(sid, n)))));
            eff2.push(val(catch_unwind(AssertUnwindSafe(|| p.get_or_default_config::<String>(sid, n).ok()))));
            num.push(val(catch_unwind(AssertUnwindSafe(|| {
                p.get_or_default_config::<u16>(sid, n).ok().map(|x| x.to_string())
            }))));
        }
        ss.push(format!(
            "{{\"id\":{},\"own\":[{}],\"own2\":[{}],\"eff\":[{}],\"eff2\":[{}],\"num\":[{}]}}",
            sid_json(sid),
            own.join(","),
            own2.join(","),
            eff.join(","),
            eff2.join(","),
            num.join(",")
        ));
    }
    let dflt: Vec<String> = names
        .iter()
        .map(|n| val(catch_unwind(AssertUnwindSafe(|| p.get_default_config::<String>(n.s()).ok()))))
        .collect();
    // identities asked for: which of the configured sessions do they find?
    let map: HashMap<SessionId, usize> =
        sids.iter().enumerate().map(|(i, s)| (s.clone(), i)).collect();
    let mut found = vec![];
    for a in cmd.get("ask").a() {
        let text = a.has("raw").then(|| unhex_str(a.get("raw").s()));
        let made = catch_unwind(AssertUnwindSafe(|| match &text {
            Some(t) => Message::get_reverse_session_id(t),
            None => mk_sid(a),
        }));
        let Ok(sid) = made else {
            found.push("[-2,-2,false]".to_string());
            continue;
        };
        let by_map = map.get(&sid).map_or(-1, |i| *i as i64);
        let by_eq = sids.iter().position(|s| *s == sid).map_or(-1, |i| i as i64);
        let by_prop = p.get_property(&sid, "begin_string").is_some()
            || names.iter().any(|n| p.get_property(&sid, n.s()).is_some());
        found.push(format!("[{},{},{}]", by_map, by_eq, by_prop));
    }
    format!(
        "{{\"r\":\"ok\",\"sessions\":[{}],\"dflt\":[{}],\"found\":[{}]}}",
        ss.join(","),
        dflt.join(","),
        found.join(",")
    )
}

// ------------------------------------------------------------------ schedule
fn sched(cmd: &J) -> String {
    let text = cmd.get("text").s().to_string();
    let made = catch_unwind(AssertUnwindSafe(|| {
        let p = Properties::from_str(&text);
        let sid = p.session_ids()[0].clone();
        SessionSchedule::create_schedule(&sid, &p)
    }));
    let s = match made {
        Ok(s) => s,
        Err(e) => return format!("{{\"r\":\"refused\",\"m\":{}}}", q(&panic_text(e))),
    };
    let mut out = vec![];
    for t in cmd.get("times").a() {
        let v = t.a();
        FAKE.with(|f| f.set(Some((v[0].n(), v[1].n()))));
        let r = catch_unwind(AssertUnwindSafe(|| s.is_session_time()));
        FAKE.with(|f| f.set(None));
        out.push(match r {
            Ok(true) => "1",
            Ok(false) => "0",
            Err(_) => "2",
        });
    }
    format!("{{\"r\":\"ok\",\"in\":[{}]}}", out.join(","))
}

fn between(cmd: &J) -> String {
    let tz: chrono_tz::Tz = cmd.get("tz").s().parse().unwrap();
    let mut out = vec![];
    for t in cmd.get("times").a() {
        let v = t.a();
        FAKE.with(|f| f.set(Some((v[0].n(), v[1].n()))));
        let r = catch_unwind(AssertUnwindSafe(|| {
            is_current_time_between(tz, cmd.get("start").s(), cmd.get("end").s())
        }));
        FAKE.with(|f| f.set(None));
        out.push(match r {
            Ok(true) => "1",
            Ok(false) => "0",
            Err(_) => "2",
        });
    }
    format!("{{\"r\":\"ok\",\"in\":[{}]}}", out.join(","))
}

// ------------------------------------------------------------------ episodes
// One episode: a real SocketAcceptor on loopback ports, clients driven by a
// script, and a log of what happened. Events are appended under one lock, an
// event that causes others (Send, Out, Connect, Close) before its effect, an
// event that observes an effect (Deliver, Recv, Eof) after it, so the order of
// the log is an order the events can have happened in.
use std::net::{Shutdown, TcpListener, TcpStream};

#[derive(Default)]
struct Log {
    ev: Mutex<Vec<String>>,
    cv: Condvar,
    /// messages received by client, for the recv step
    got: Mutex<HashMap<i64, Vec<Vec<u8>>>>,
    done: Mutex<HashMap<String, usize>>, // messages the application has dealt with
    mark: Mutex<(usize, usize)>,                    // last round of markers, messages sent before it
    tired: std::sync::atomic::AtomicBool,
}
impl Log {
    fn put(&self, s: String) {
        if s.starts_with("{\"e\":\"Timeout\"") || s.starts_with("{\"e\":\"Refused\"") {
            self.tired.store(true, SeqCst);
        }
        self.ev.lock().unwrap().push(s);
    }
}

/// a message in the log: its bytes, or length and hash if it is big
fn content(b: &[u8]) -> String {
    if b.len() <= 20000 {
        return hex(b);
    }
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}-{:016x}", b.len(), h)
}

struct Out {
    log: Arc<Log>,
    sids: Vec<SessionId>,
    next: Mutex<i64>,
    map: Mutex<Option<SessionMap>>,
}

impl Out {
    fn index(&self, s: &SessionId) -> i64 {
        self.sids.iter().position(|x| x == s).map_or(-1, |i| i as i64)
    }
    /// sends n messages to the session, order of the log = order of the sends
    fn send(&self, idx: usize, sessions: &SessionMap, n: usize, size: usize) {
        let text = if size % 3 == 1 { "\u{20ac}" } else { "x" }.repeat(size);
        self.send_text(idx, sessions, n, &text)
    }
    fn send_text(&self, idx: usize, sessions: &SessionMap, n: usize, text: &str) {
        for _ in 0..n {
            let mut next = self.next.lock().unwrap();
            *next += 1;
            let sid = &self.sids[idx];
            let mut m = Message::new();
            m.header_mut().set_field(StringField::new(8, sid.begin_string()));
            let kinds = ["8", "8", "0", "A", "5", "2", "8", "3", "4"];
            m.header_mut().set_field(StringField::new(35, kinds[*next as usize % kinds.len()]));
            m.header_mut().set_field(StringField::new(49, sid.sender_compid()));
            m.header_mut().set_field(StringField::new(56, sid.target_compid()));
            m.set_field(StringField::new(11, &format!("A{}", *next)));
            m.set_field(StringField::new(58, text));
            // what else is in it differs from message to message
            if *next % 3 == 0 {
                let g = m.set_group(73, 2, 11);
                g[0].set_field(StringField::new(11, "x"));
                g[0].set_field(StringField::new(12, "\u{20ac} |="));
                g[1].set_field(StringField::new(11, "y"));
                m.trailer_mut().set_field(StringField::new(89, "A\u{e9}"));
            }
            if *next % 5 == 0 {
                m.header_mut().set_field(StringField::new(34, &next.to_string()));
                m.set_field(StringField::new(9, "9"));
            }
            if *next % 7 != 0 {
                m.set_body_len();
            }
            m.set_checksum();
            self.put_send(*next, idx, sessions, m);
        }
    }
    fn put_send(&self, o: i64, idx: usize, sessions: &SessionMap, m: Message) {
        self.log.put(format!(
            "{{\"e\":\"Out\",\"o\":{},\"s\":{},\"x\":\"{}\"}}",
            o,
            idx,
            content(m.to_string().as_bytes())
        ));
        Session::sync_send_to_target(&self.sids[idx], sessions, m);
    }
    /// messages without a number, equal for equal k
    fn send_same(&self, idx: usize, sessions: &SessionMap, n: usize, k: usize) {
        for _ in 0..n {
            let mut next = self.next.lock().unwrap();
            *next += 1;
            let sid = &self.sids[idx];
            let mut m = Message::new();
            m.header_mut().set_field(StringField::new(8, sid.begin_string()));
            m.header_mut().set_field(StringField::new(35, ["0", "8", "1"][k % 3]));
            // no two fields whose order is left open, so that the texts are equal
            m.header_mut().set_field(StringField::new(56, &format!("same{}", idx)));
            if k > 0 {
                m.set_field(StringField::new(58, &k.to_string()));
            }
            m.set_body_len();
            m.set_checksum();
            self.put_send(*next, idx, sessions, m);
        }
    }
}

struct TestApp {
    out: Arc<Out>,
    handle: tokio::runtime::Handle,
}

/// the content of a field map without regard to the order of its fields
fn canon_fm(fm: &FieldMap) -> String {
    // the iterator also goes through the instances of groups
    let mut tags = BTreeSet::new();
    for f in fm.iter() {
        tags.insert(f.tag());
    }
    let mut v = vec![];
    for t in tags {
        if let Ok(x) = fm.get_field::<String>(t) {
            v.push(match fm.get_group(t) {
                Some(g) => {
                    let insts: Vec<String> =
                        (0..g.size()).map(|i| canon_fm(&g[i as usize])).collect();
                    format!("{}={}[{}]", t, x, insts.join("|"))
                }
                None => format!("{}={}", t, x),
            });
        }
    }
    v.sort();
    format!("{{{}}}", v.join("\u{1}"))
}
fn canon(m: &Message) -> String {
    format!("{}{}{}", canon_fm(m.header()), canon_fm(m.body()), canon_fm(m.trailer()))
}

impl Application for TestApp {
    fn to_app(_msg: String) {}
    fn from_app(&self, session_id: &SessionId, sessions: &SessionMap, msg: Message) {
        let o = &self.out;
        let id = msg.get_field::<String>(11).unwrap_or_default();
        o.log.put(format!(
            "{{\"e\":\"Deliver\",\"s\":{},\"m\":{},\"x\":{}}}",
            o.index(session_id),
            q(&id),
            q(&canon(&msg))
        ));
        *o.map.lock().unwrap() = Some(sessions.clone());
        // the command of the message: what the application does with it
        let cmd = msg.get_field::<String>(1).unwrap_or_default();
        for c in cmd.split(';') {
            let mut num = c.get(1..).unwrap_or("").split(':').map(|x| x.parse::<usize>().unwrap_or(0));
            match c.chars().next() {
                Some('R') => {
                    let idx = o.index(session_id);
                    let (n, size) = (num.next().unwrap_or(0), num.next().unwrap_or(4));
                    if idx >= 0 {
                        o.send(idx as usize, sessions, n, size);
                    }
                }
                Some('A') => {
                    // an answer that names the message
                    let idx = o.index(session_id);
                    if idx >= 0 {
                        o.send_text(idx as usize, sessions, num.next().unwrap_or(0), &format!("re{}.", id));
                    }
                }
                Some('F') => {
                    let (idx, n) = (num.next().unwrap_or(0), num.next().unwrap_or(0));
                    o.send(idx, sessions, n, num.next().unwrap_or(4));
                }
                Some('M') => {
                    // a message that the clients of the session wait for
                    let (idx, n) = (num.next().unwrap_or(0), num.next().unwrap_or(0));
                    {
                        let next = o.next.lock().unwrap();
                        let mut mark = o.log.mark.lock().unwrap();
                        if mark.0 != n {
                            *mark = (n, *next as usize);
                        }
                    }
                    o.send_text(idx, sessions, 1, &format!("end{}s{}.", n, idx));
                }
                Some('L') => {
                    // a burst while the runtime is busy with something else
                    let (a, b) = std::sync::mpsc::channel::<()>();
                    let (c, d) = std::sync::mpsc::channel::<()>();
                    self.handle.spawn(async move {
                        a.send(()).unwrap();
                        let _ = d.recv_timeout(Duration::from_secs(10));
                    });
                    let _ = b.recv_timeout(Duration::from_secs(10));
                    let idx = o.index(session_id);
                    o.send(idx as usize, sessions, num.next().unwrap_or(0), 4);
                    let _ = c.send(());
                }
                Some('S') => {
                    // the very same message several times
                    let idx = o.index(session_id);
                    if idx >= 0 {
                        o.send_same(idx as usize, sessions, num.next().unwrap_or(0), num.next().unwrap_or(0));
                    }
                }
                Some('W') => std::thread::sleep(Duration::from_millis(num.next().unwrap_or(0) as u64)),
                _ => {}
            }
        }
        *o.log.done.lock().unwrap().entry(id).or_insert(0) += 1;
        o.log.cv.notify_all();
    }
}

static PORT: AtomicUsize = AtomicUsize::new(0);

/// a port nobody else uses: 127.0.0.2 is where drivers reserve theirs
fn free_port() -> (u16, TcpListener, TcpListener) {
    if PORT.load(SeqCst) == 0 {
        PORT.store(std::process::id() as usize * 37, SeqCst);
    }
    loop {
        // below the ephemeral range, so that no client socket takes the port
        let p = 12000 + (PORT.fetch_add(1, SeqCst) % 20000) as u16;
        if let Ok(r) = TcpListener::bind(("127.0.0.2", p)) {
            if let Ok(l) = TcpListener::bind(("127.0.0.1", p)) {
                return (p, l, r);
            }
        }
    }
}

fn cpu_ns() -> i64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, ts.as_mut_ptr()) };
    ts[0] * 1_000_000_000 + ts[1]
}

struct Client {
    sock: TcpStream,
    closed: Arc<std::sync::atomic::AtomicBool>,
    aborted: Arc<std::sync::atomic::AtomicBool>,
    reader: Option<std::thread::JoinHandle<()>>,
}

/// k of the first field 11=A<k>, 0 if there is none
fn number_of(b: &[u8]) -> i64 {
    b.split(|x| *x == 1)
        .find(|f| f.starts_with(b"11=A"))
        .and_then(|f| std::str::from_utf8(&f[4..]).ok().and_then(|s| s.parse().ok()))
        .unwrap_or(0)
}

fn start_reader(
    c: i64, sock: &TcpStream, log: Arc<Log>, closed: Arc<std::sync::atomic::AtomicBool>,
    aborted: Arc<std::sync::atomic::AtomicBool>,
) -> std::thread::JoinHandle<()> {
    let t0 = Instant::now();
    let mut s = loop {
        match sock.try_clone() {
            Ok(s) => break s,
            Err(e) if log.tired.load(SeqCst) => {
                log.put(format!("{{\"e\":\"Refused\",\"c\":{},\"m\":{}}}", c, q(&e.to_string())));
                return std::thread::spawn(|| {});
            }
            // too many open files, wait for the server to close some
            Err(_) => {
                if t0.elapsed() > Duration::from_secs(5) {
                    log.tired.store(true, SeqCst);
                }
                std::thread::sleep(Duration::from_millis(5))
            }
        }
    };
    s.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
        let mut buf: Vec<u8> = vec![];
        let mut from = 0; // start of the field being read
        let mut chunk = [0u8; 4096];
        loop {
            let n = match s.read(&mut chunk) {
                Ok(n) if n > 0 => n,
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    if aborted.load(SeqCst) {
                        return;
                    }
                    continue;
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                _ => {
                    if !closed.load(SeqCst) {
                        log.put(format!("{{\"e\":\"Eof\",\"c\":{},\"rest\":{}}}", c, buf.len()));
                        log.cv.notify_all();
                    }
                    return;
                }
            };
            for b in &chunk[..n] {
                buf.push(*b);
                if *b == 1 {
                    let end = buf[from..].starts_with(b"10=");
                    from = buf.len();
                    if end {
                        let mut got = log.got.lock().unwrap();
                        log.put(format!(
                            "{{\"e\":\"Recv\",\"c\":{},\"o\":{},\"x\":\"{}\"}}",
                            c,
                            number_of(&buf),
                            content(&buf)
                        ));
                        got.entry(c).or_default().push(std::mem::take(&mut buf));
                        from = 0;
                        log.cv.notify_all();
                    }
                }
            }
        }
    }).unwrap()
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn getrlimit(what: i32, l: *mut RLimit) -> i32;
    fn setrlimit(what: i32, l: *const RLimit) -> i32;
}
/// limits the number of open files, returns the limit before
fn limit_files(n: u64) -> u64 {
    let mut l = RLimit { cur: 0, max: 0 };
    unsafe { getrlimit(7, &mut l) };
    let old = l.cur;
    l.cur = n.min(l.max);
    unsafe { setrlimit(7, &l) };
    old
}

#[repr(C)]
struct Linger {
    onoff: i32,
    secs: i32,
}
extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const Linger, len: u32) -> i32;
}

/// a client thread that panics must not leave the others waiting
struct Fatal;
impl Drop for Fatal {
    fn drop(&mut self) {
        eprintln!("a client of the driver failed");
        std::process::exit(70);
    }
}

fn episode(cmd: &J) -> String {
    let t0 = Instant::now();
    let nports = cmd.get("ports").n() as usize;
    let mut text = cmd.get("cfg").s().to_string();
    let mut ports = vec![];
    let mut reserved = vec![];
    let mut held: Vec<Option<TcpListener>> = vec![];
    let busy: Vec<i64> = cmd.get("busy").a().iter().map(|x| x.n()).collect();
    for i in 0..nports {
        let (p, l, r) = free_port();
        ports.push(p);
        reserved.push(r);
        held.push(if busy.contains(&(i as i64)) { Some(l) } else { None });
        text = text.replace(&format!("%P{}%", i), &p.to_string());
    }
    let log = Arc::new(Log::default());
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(cmd.get("workers").n().max(1) as usize)
        .enable_all()
        .build()
        .unwrap();
    let out = Arc::new(Out {
        log: log.clone(),
        sids: cmd.get("sids").a().iter().map(mk_sid).collect(),
        next: Mutex::new(0),
        map: Mutex::new(None),
    });
    let app = TestApp { out: out.clone(), handle: rt.handle().clone() };
    let started = catch_unwind(AssertUnwindSafe(|| {
        let _g = rt.enter();
        let mut acc = SocketAcceptor::new(Properties::from_str(&text), app);
        acc.start_accepting_connections();
        acc
    }));
    let acc = match started {
        Ok(a) => a,
        Err(e) => {
            rt.shutdown_background();
            return format!("{{\"r\":\"refused\",\"m\":{}}}", q(&panic_text(e)));
        }
    };
    let held = Arc::new(Mutex::new(held));
    let opened: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![false; nports]));
    let threads: Vec<J> = cmd.get("threads").a().to_vec();
    let nbar = cmd.get("bars").n() as usize;
    let bars: Arc<Vec<std::sync::Barrier>> =
        Arc::new((0..nbar).map(|_| std::sync::Barrier::new(threads.len())).collect());
    // so many files may be open beyond those that are
    let old_limit = if cmd.has("nofile") {
        let used = std::fs::read_dir("/proc/self/fd").map_or(100, |d| d.count());
        Some(limit_files(used as u64 + cmd.get("nofile").n() as u64))
    } else {
        None
    };
    let full = Duration::from_millis(cmd.get("patience").n().max(1) as u64);
    // once something has not come, there is no need to wait as long for the rest
    let patience = move |log: &Log| if log.tired.load(SeqCst) { full.min(Duration::from_millis(200)) } else { full };
    let mut hs = vec![];
    for steps in threads {
        let (log, out, ports, held, opened, bars) =
            (log.clone(), out.clone(), ports.clone(), held.clone(), opened.clone(), bars.clone());
        hs.push(std::thread::spawn(move || {
            let mut cl: HashMap<i64, Client> = HashMap::new();
            let mut hogged: Vec<std::fs::File> = vec![];
            let guard = Fatal;
            for st in steps.a() {
                let c = st.get("c").n();
                match st.get("o").s() {
                    "connect" => {
                        let p = st.get("p").n() as usize;
                        {
                            // not between the log entry of a message sent and the sending
                            let _g = out.next.lock().unwrap();
                            log.put(format!(
                                "{{\"e\":\"Connect\",\"c\":{},\"p\":{},\"s\":{},\"mute\":{}}}",
                                c, p, st.get("s").n(), st.get("mute").b()
                            ));
                        }
                        let t = Instant::now();
                        loop {
                            let was_open = opened.lock().unwrap()[p];
                            match TcpStream::connect(("127.0.0.1", ports[p])) {
                                Ok(sock) => {
                                    opened.lock().unwrap()[p] = true;
                                    sock.set_nodelay(true).unwrap();
                                    let closed = Arc::new(std::sync::atomic::AtomicBool::new(false));
                                    let aborted = Arc::new(std::sync::atomic::AtomicBool::new(false));
                                    let reader = if st.get("mute").b() || st.get("late").b() {
                                        None
                                    } else {
                                        Some(start_reader(c, &sock, log.clone(), closed.clone(), aborted.clone()))
                                    };
                                    cl.insert(c, Client { sock, closed, aborted, reader });
                                    break;
                                }
                                // no file for the client itself
                                Err(e) if e.raw_os_error() == Some(24) && hogged.pop().is_some() => {}
                                Err(e) => {
                                    if was_open || t.elapsed() > patience(&log) {
                                        log.put(format!("{{\"e\":\"Refused\",\"c\":{},\"m\":{}}}", c, q(&e.to_string())));
                                        break;
                                    }
                                    std::thread::sleep(Duration::from_millis(2));
                                }
                            }
                        }
                    }
                    "send" => {
                        let b = unhex(st.get("b").s());
                        for m in st.get("ms").a() {
                            log.put(format!("{{\"e\":\"Send\",\"c\":{},\"m\":{}}}", c, q(m.s())));
                        }
                        if let Some(k) = cl.get_mut(&c) {
                            let mut from = 0;
                            let mut bad = false;
                            let cuts: Vec<usize> = st.get("cuts").a().iter().map(|x| x.n() as usize).collect();
                            for to in cuts.iter().copied().chain(std::iter::once(b.len())) {
                                bad = bad || k.sock.write_all(&b[from..to]).is_err();
                                from = to;
                                if to < b.len() {
                                    std::thread::sleep(Duration::from_micros(st.get("gap").n() as u64));
                                }
                            }
                            if bad && !st.get("mayfail").b() {
                                log.put(format!("{{\"e\":\"SendErr\",\"c\":{}}}", c));
                            }
                        }
                    }
                    "recv" => {
                        // wait until a received message holds the token
                        let tok = st.get("tok").s().as_bytes().to_vec();
                        let want = st.get("n").n().max(1) as usize;
                        let t = Instant::now();
                        // only those that came since the last look, the first time the latest ones
                        let (mut upto, mut hits) = (None, 0);
                        loop {
                            if let Some(v) = log.got.lock().unwrap().get(&c) {
                                let from = upto.unwrap_or(v.len().saturating_sub(3000));
                                hits += v[from..].iter().filter(|m| m.windows(tok.len()).any(|w| w == &tok[..])).count();
                                upto = Some(v.len());
                            }
                            if hits >= want {
                                break;
                            }
                            if t.elapsed() > patience(&log) {
                                log.put(format!("{{\"e\":\"Timeout\",\"c\":{},\"m\":{}}}", c, q(st.get("tok").s())));
                                break;
                            }
                            // not on a condition variable: it waits for a time by the clock that is set forward
                            std::thread::sleep(Duration::from_micros(300));
                        }
                    }
                    "delivered" => {
                        let t = Instant::now();
                        let mut ms: HashMap<&str, usize> = HashMap::new();
                        for m in st.get("ms").a() {
                            *ms.entry(m.s()).or_insert(0) += 1;
                        }
                        while { let d = log.done.lock().unwrap(); !ms.iter().all(|(m, n)| d.get(*m).unwrap_or(&0) >= n) } {
                            if t.elapsed() > patience(&log) {
                                log.put(format!("{{\"e\":\"Timeout\",\"c\":{},\"m\":\"delivery\"}}", c));
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(1));
                        }
                    }
                    "close" => {
                        if let Some(k) = cl.remove(&c) {
                            log.put(format!("{{\"e\":\"Close\",\"c\":{},\"k\":\"close\"}}", c));
                            k.closed.store(true, SeqCst);
                            if st.get("rst").b() {
                                use std::os::fd::AsRawFd;
                                let l = Linger { onoff: 1, secs: 0 };
                                unsafe { setsockopt(k.sock.as_raw_fd(), 1, 13, &l, 8) };
                                // the reader holds a duplicate of the socket
                                k.aborted.store(true, SeqCst);
                            } else {
                                let _ = k.sock.shutdown(Shutdown::Both);
                            }
                            if let Some(r) = k.reader {
                                let _ = r.join();
                            }
                            drop(k.sock);
                        }
                    }
                    "shut" => {
                        if let Some(k) = cl.get(&c) {
                            log.put(format!("{{\"e\":\"Close\",\"c\":{},\"k\":\"shut\"}}", c));
                            k.closed.store(true, SeqCst);
                            let _ = k.sock.shutdown(Shutdown::Write);
                        }
                    }
                    "appsend" => {
                        let m = out.map.lock().unwrap().clone();
                        if let Some(m) = m {
                            out.send(st.get("s").n() as usize, &m, st.get("n").n() as usize, 4);
                        }
                    }
                    // a client that has not read so far begins to
                    "listen" => {
                        if let Some(k) = cl.get_mut(&c) {
                            k.reader = Some(start_reader(c, &k.sock, log.clone(), k.closed.clone(), k.aborted.clone()));
                        }
                    }
                    "free" => held.lock().unwrap()[st.get("p").n() as usize] = None,
                    "bar" => {
                        bars[st.get("k").n() as usize].wait();
                    }
                    // no file can be opened any more
                    "hog" => {
                        while let Ok(f) = std::fs::File::open("/dev/null") {
                            hogged.push(f);
                        }
                    }
                    "unhog" => hogged.clear(),
                    // time passes; nobody waits for anything meanwhile
                    "skip" => {
                        SKIPPED.fetch_add(st.get("s").n(), SeqCst);
                    }
                    "sleep" => std::thread::sleep(Duration::from_micros(st.get("us").n() as u64)),
                    "cpu" => {
                        // CPU time per wall time in per mille, the lowest of some windows
                        let mut best = i64::MAX;
                        for _ in 0..5 {
                            let (c0, w0) = (cpu_ns(), Instant::now());
                            std::thread::sleep(Duration::from_millis(st.get("ms").n() as u64));
                            let w = w0.elapsed().as_nanos() as i64;
                            best = best.min((cpu_ns() - c0) * 1000 / w);
                            if best < 200 {
                                break;
                            }
                        }
                        log.put(format!("{{\"e\":\"Cpu\",\"v\":{}}}", best));
                    }
                    o => log.put(format!("{{\"e\":\"Harness\",\"m\":{}}}", q(o))),
                }
            }
            std::mem::forget(guard);
            cl
        }));
    }
    let mut kept = vec![];
    let mut broken = false;
    for h in hs {
        match h.join() {
            Ok(c) => kept.push(c),
            Err(_) => broken = true,
        }
    }
    // what was sent before the last round of markers must have been received
    let (round, before) = *log.mark.lock().unwrap();
    log.put(format!("{{\"e\":\"End\",\"o\":{}}}", if round == 0 { *out.next.lock().unwrap() as usize } else { before }));
    let ev = std::mem::take(&mut *log.ev.lock().unwrap());
    for cl in &kept {
        for k in cl.values() {
            k.closed.store(true, SeqCst);
            let _ = k.sock.shutdown(Shutdown::Both);
        }
    }
    drop(acc);
    rt.shutdown_timeout(Duration::from_millis(300));
    if let Some(n) = old_limit {
        limit_files(n);
    }
    drop(reserved);
    format!(
        "{{\"r\":\"{}\",\"ev\":[{}],\"ms\":{}}}",
        if broken { "harness" } else { "ok" },
        ev.join(","),
        t0.elapsed().as_millis()
    )
}

// ---------------------------------------------------------------------- pipe
// Streams of bytes written to a real SocketAcceptor, and what the application is
// handed. Every stream ends with a message whose BodyLength ends in "END".
struct PipeApp {
    sids: Vec<SessionId>,
    tags: BTreeSet<u32>,
    got: Arc<Mutex<Vec<String>>>,
    ends: Arc<(Mutex<std::collections::HashSet<String>>, Condvar)>,
}

impl Application for PipeApp {
    fn to_app(_msg: String) {}
    fn from_app(&self, session_id: &SessionId, _sessions: &SessionMap, msg: Message) {
        let s = self.sids.iter().position(|x| x == session_id).map_or(-1, |i| i as i64);
        self.got.lock().unwrap().push(format!("{{\"s\":{},{}}}", s, dump_msg(&msg, &self.tags)));
        let nine = msg.header().get_field::<String>(9).unwrap_or_default();
        if nine.ends_with("END") {
            self.ends.0.lock().unwrap().insert(nine);
            self.ends.1.notify_all();
        }
    }
}

fn pipe(cmd: &J) -> String {
    let mut text = cmd.get("cfg").s().to_string();
    let mut ports = vec![];
    let mut reserved = vec![];
    for i in 0..cmd.get("ports").n() {
        let (p, _, r) = free_port();
        ports.push(p);
        reserved.push(r);
        text = text.replace(&format!("%P{}%", i), &p.to_string());
    }
    let base = std::env::var("FIX_VERIF_OUT").unwrap();
    let mut files = vec![];
    let twins = text.len() % 3 == 0;
    for (i, x) in cmd.get("dicts").a().iter().enumerate() {
        // whatever a dictionary is called
        let end = ["-dir/FIX43.xml", "", ".xml", " of mine.XML", "-\u{e4}", "-aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.txt"][(i + text.len()) % 6];
        let mut name = format!("{}.dict{}{}", base, i, end);
        if twins {
            name = format!("{}.dir{}/FIX43.xml", base, i);
        }
        if let Some(dir) = name.strip_suffix("/FIX43.xml") {
            std::fs::create_dir_all(dir).expect("harness: cannot make a directory");
        }
        std::fs::write(&name, x.s()).expect("harness: cannot write");
        text = text.replace(&format!("%D{}%", i), &name);
        files.push(name);
    }
    let conns: Vec<J> = cmd.get("conns").a().to_vec();
    let mut tags = BTreeSet::new();
    for c in &conns {
        tags.extend(tags_of(&String::from_utf8_lossy(&unhex(c.get("b").s()))));
    }
    let got = Arc::new(Mutex::new(vec![]));
    let ends = Arc::new((Mutex::new(std::collections::HashSet::new()), Condvar::new()));
    let app = PipeApp {
        sids: cmd.get("sids").a().iter().map(mk_sid).collect(),
        tags,
        got: got.clone(),
        ends: ends.clone(),
    };
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(cmd.get("workers").n().max(1) as usize)
        .enable_all()
        .build()
        .unwrap();
    let started = catch_unwind(AssertUnwindSafe(|| {
        let _g = rt.enter();
        let mut acc = SocketAcceptor::new(Properties::from_str(&text), app);
        acc.start_accepting_connections();
        acc
    }));
    for f in &files {
        let _ = std::fs::remove_file(f);
    }
    let acc = match started {
        Ok(a) => a,
        Err(e) => {
            rt.shutdown_background();
            return format!("{{\"r\":\"refused\",\"m\":{}}}", q(&panic_text(e)));
        }
    };
    let patience = Arc::new(AtomicUsize::new(cmd.get("patience").n().max(1) as usize));
    let par = cmd.get("par").n().max(1) as usize;
    let next = Arc::new(AtomicUsize::new(0));
    let conns = Arc::new(conns);
    let mut hs = vec![];
    for _ in 0..par {
        let (conns, next, ends, patience, ports) =
            (conns.clone(), next.clone(), ends.clone(), patience.clone(), ports.clone());
        hs.push(std::thread::spawn(move || loop {
            let Some(c) = conns.get(next.fetch_add(1, SeqCst)) else { break };
            let t = Instant::now();
            let full = |p: &AtomicUsize| Duration::from_millis(p.load(SeqCst) as u64);
            let mut sock = loop {
                match TcpStream::connect(("127.0.0.1", ports[c.get("p").n() as usize])) {
                    Ok(s) => break Some(s),
                    Err(_) if t.elapsed() > full(&patience) => break None,
                    Err(_) => std::thread::sleep(Duration::from_millis(2)),
                }
            };
            if let Some(s) = &mut sock {
                s.set_nodelay(true).unwrap();
                let b = unhex(c.get("b").s());
                let mut from = 0;
                for to in c.get("cuts").a().iter().map(|x| x.n() as usize).chain(std::iter::once(b.len())) {
                    if s.write_all(&b[from..to]).is_err() {
                        break;
                    }
                    from = to;
                    if to < b.len() && c.get("gap").n() > 0 {
                        std::thread::sleep(Duration::from_micros(c.get("gap").n() as u64));
                    }
                }
            }
            // the last message of the stream
            let end = c.get("end").s();
            let mut g = ends.0.lock().unwrap();
            let t = Instant::now();
            while !g.contains(end) {
                if t.elapsed() > full(&patience) {
                    patience.store(300, SeqCst);
                    break;
                }
                g = ends.1.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let out = std::mem::take(&mut *got.lock().unwrap());
    drop(acc);
    rt.shutdown_timeout(Duration::from_millis(300));
    drop(reserved);
    format!("{{\"r\":\"ok\",\"got\":[{}]}}", out.join(","))
}

// ---------------------------------------------------------------------- main
fn one(cmd: &J, dicts: &mut HashMap<String, DataDictionary>) -> String {
    match cmd.get("op").s() {
        "dict" => {
            let xml = cmd.get("xml").s().to_string();
            let r = catch_unwind(AssertUnwindSafe(|| match DataDictionary::from_str(&xml) {
                Ok(_) if cmd.has("file") => with_file(&xml, |f| Ok(DataDictionary::from_xml(f))),
                r => r,
            }));
            match r {
                Ok(Ok(d)) => {
                    let o = if cmd.has("tags") { dict_dump(cmd, &d) } else { "{}".into() };
                    dicts.insert(cmd.get("id").s().to_string(), d);
                    format!("{{\"r\":\"ok\",\"d\":{}}}", o)
                }
                Ok(Err(e)) => format!("{{\"r\":\"err\",\"k\":{}}}", q(&err_kind(&e))),
                Err(e) => format!("{{\"r\":\"panic\",\"m\":{}}}", q(&panic_text(e))),
            }
        }
        "parse" => {
            let text = unhex_str(cmd.get("b").s());
            parse_text(&text, &dicts[cmd.get("dict").s()], cmd.has("brief"))
        }
        "sid" => {
            let text = unhex_str(cmd.get("b").s());
            let base = peak_reset();
            let r = small_stack(|| (Message::get_session_id(&text), Message::get_reverse_session_id(&text)));
            let mem = PEAK.load(Relaxed) - base;
            match r {
                Ok((f, v)) => format!(
                    "{{\"r\":\"ok\",\"fwd\":{},\"rev\":{},\"mem\":{}}}",
                    sid_json(&f),
                    sid_json(&v),
                    mem
                ),
                Err(e) => format!("{{\"r\":\"panic\",\"m\":{}}}", q(&panic_text(e))),
            }
        }
        "build" => build(cmd, dicts),
        "cfg" => cfg(cmd),
        "sched" => sched(cmd),
        "between" => between(cmd),
        "episode" => episode(cmd),
        "pipe" => pipe(cmd),
        o => format!("{{\"r\":\"harness\",\"m\":{}}}", q(o)),
    }
}

pub fn run() -> bool {
    let (i, o) = match (std::env::var("FIX_VERIF_IN"), std::env::var("FIX_VERIF_OUT")) {
        (Ok(i), Ok(o)) => (i, o),
        _ => return false,
    };
    std::panic::set_hook(Box::new(|i| {
        let own = i.location().map_or(true, |l| l.file().ends_with("driver.rs"));
        OWN_PANIC.with(|p| p.set(own));
        if std::env::var("DRV_DEBUG").is_ok() {
            eprintln!("{}", i)
        }
    }));
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let inp = std::io::BufReader::new(std::fs::File::open(i).unwrap());
            let mut out = std::fs::OpenOptions::new().append(true).create(true).open(o).unwrap();
            let mut dicts = HashMap::new();
            for line in inp.lines() {
                let line = line.unwrap();
                let cmd = J::parse(&line);
                let mut r = match catch_unwind(AssertUnwindSafe(|| one(&cmd, &mut dicts))) {
                    Ok(r) => r,
                    // of the code, not of this driver
                    Err(e) if !OWN_PANIC.with(|p| p.get()) => format!("{{\"r\":\"panic\",\"m\":{}}}", q(&panic_text(e))),
                    Err(e) => std::panic::resume_unwind(e),
                };
                r.push('\n');
                out.write_all(r.as_bytes()).unwrap();
            }
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("harness: driver thread panicked");
        std::process::exit(70);
    }
    true
}
