//! Conformance driver: runs cases against typetag and records what happened.
//!
//!   vdrv run IN OUT        cases (one JSON object per line) to recordings
//!   vdrv race IN OUT       the same, each thread's cases on its own thread and
//!                          all threads step by step at the same moment
//!
//! A panic is recorded; when the process dies or a case does not finish, the
//! caller records that for the first case without a recording.

#[cfg(feature = "fmts")]
mod fmts;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use vcore::doc::{De, Doc, DocErr, Env};
pub use vcore;
use vcore::node::{tree, Node, Parser};
use vcore::rec::{own_tokens, Rec, RecErr, INJECTED_FMT};
use vcore::schema::{typed_mode, with_schema, Schema};
use vcore::strict::{Strict, Tape};
use vcore::tok::*;
use vcore::traits;
use vcore::zoo;
use vcore::Top;

fn toks(j: &J) -> Vec<Tok> {
    serde_json::from_value(j.clone()).expect("tokens")
}

fn flag(j: &J, k: &str) -> bool {
    j[k].as_bool().unwrap_or(false)
}

fn fault(j: &J) -> Option<usize> {
    j["fault"].as_u64().filter(|n| *n > 0).map(|n| n as usize)
}

/// Traits of a program generated around this library: configuration, markers
/// and (for values) type, by what they were declared as.
pub struct Extra {
    pub ser: fn(&str, &str, &str, &Node, Rec) -> Result<(), RecErr>,
    pub de: for<'a> fn(&'static str, &str, De<'a>) -> Result<Node, DocErr>,
}

static EXTRA: OnceLock<Extra> = OnceLock::new();

pub fn main_with(extra: Option<Extra>) {
    if let Some(x) = extra {
        let _ = EXTRA.set(x);
    }
    let _ = traits::EXTERNAL.set(vext::make);
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(String::as_str) {
        Some("run") => run(&args[2], &args[3]),
        Some("race") => race(&args[2], &args[3]),
        _ => {
            eprintln!("usage: vdrv run|race IN OUT");
            std::process::exit(2);
        }
    }
}

fn run(input: &str, output: &str) {
    let f = std::io::BufReader::new(std::fs::File::open(input).unwrap());
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(output)
        .unwrap();
    let beat = Arc::new(AtomicUsize::new(0));
    {
        // a case that does not finish ends the process
        let beat = beat.clone();
        std::thread::spawn(move || {
            let mut last = usize::MAX;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(20));
                let now = beat.load(Ordering::SeqCst);
                if now == last {
                    std::process::exit(77);
                }
                last = now;
            }
        });
    }
    // worker threads on which cases can ask to run
    let mut workers: Vec<(std::sync::mpsc::Sender<J>, std::sync::mpsc::Receiver<J>)> = Vec::new();
    let mut out = out;
    for line in f.lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let mut d = serde_json::Deserializer::from_str(&line);
        d.disable_recursion_limit();
        let c = <J as serde::Deserialize>::deserialize(&mut d).expect("case");
        let th = c["th"].as_u64().unwrap_or(0) as usize;
        while workers.len() <= th {
            let (tx, rx) = std::sync::mpsc::channel::<J>();
            let (tx2, rx2) = std::sync::mpsc::channel::<J>();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    for c in rx {
                        let _ = tx2.send(case(&c));
                    }
                })
                .unwrap();
            workers.push((tx, rx2));
        }
        workers[th].0.send(c).unwrap();
        let r = workers[th].1.recv().unwrap();
        beat.fetch_add(1, Ordering::SeqCst);
        let mut s = serde_json::to_string(&r).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
    }
}

fn case(c: &J) -> J {
    let kind = c["kind"].as_str().unwrap().to_owned();
    vcore::node::BOOM.with(|b| b.set(flag(c, "boom")));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind.as_str() {
        "ser" => ser_case(c),
        "de" => de_case(c),
        "rt" => rt_case(c),
        "strict" => strict_case(c),
        "enc" => enc_case(c),
        "zoo" => zoo_case(c),
        "tot" => tot_case(c),
        k => panic!("kind {k}"),
    }));
    let mut o = match r {
        Ok(o) => o,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"panic": true, "msg": enc(&m)})
        }
    };
    let m = o.as_object_mut().unwrap();
    m.entry("panic").or_insert(json!(false));
    for k in ["id", "kind"] {
        m.insert(k.into(), c[k].clone());
    }
    o
}

// ------------------------------------------------------------- serialization

fn ser_any(node: &Node, mk: Option<&str>, rec: Rec) -> Result<(), RecErr> {
    match (node, mk) {
        (Node::Obj(cfg, tag, x), Some(mk)) if EXTRA.get().is_some() => {
            (EXTRA.get().unwrap().ser)(cfg, mk, tag, x, rec)
        }
        (Node::Obj(cfg, tag, x), Some(mk)) => traits::ser_marker(cfg, mk, tag, x, rec),
        _ => node.serialize(rec),
    }
}

fn ser_case(c: &J) -> J {
    let node = Parser::parse(&toks(&c["node"]));
    let hr = flag(c, "hr");
    let fault = fault(c);
    let input = own_tokens(&node).expect("own tokens");
    let rec = Rec::new(hr, fault);
    let res = ser_any(&node, c["mk"].as_str(), rec.clone());
    let out = rec.out();
    json!({
        "in": input,
        "hr": hr,
        "fault": fault.unwrap_or(0),
        "fired": out.fired,
        "out": out.toks,
        "ok": res.is_ok(),
        "err": enc(&short(&res.err().map(|e| e.0).unwrap_or_default())),
        "mk": c["mk"].as_str().unwrap_or(""),
    })
}

/// the injected messages by their names
fn short(msg: &str) -> String {
    msg.replace(INJECTED_FMT, "injected-format-failure")
        .replace(vcore::node::INJECTED, "injected-value-failure")
}

// ----------------------------------------------------------- deserialization

fn outcome(r: Result<Node, DocErr>) -> J {
    match r {
        Ok(n) => json!({"ok": true, "v": tree(&n), "err": {"kind":"","arg":"","list":[],"msg":""}}),
        Err(e) => json!({"ok": false, "v": {"k":"","v":"","c":[]}, "err": {
            "kind": e.kind, "arg": enc(&e.arg),
            "list": e.list.iter().map(|s| enc(s)).collect::<Vec<_>>(),
            "msg": enc(&e.msg)}}),
    }
}

fn de_case(c: &J) -> J {
    let sch = Schema::parse(&c["sch"]);
    let doc = Doc::parse(&c["doc"]);
    let hr = flag(c, "hr");
    let env = Env::new(hr, flag(c, "lax"), fault(c));
    let r = {
        let d = De::new(&doc, env.clone());
        match (&sch, c["mk"].as_str()) {
            (Schema::Obj(cfg, s), Some(mk)) if EXTRA.get().is_some() => {
                with_schema(s, || (EXTRA.get().unwrap().de)(cfg, mk, d))
            }
            (Schema::Obj(cfg, s), Some(mk)) => with_schema(s, || traits::de_marker(cfg, mk, d)),
            _ => {
                use serde::de::DeserializeSeed;
                (&sch).deserialize(d)
            }
        }
    };
    let mut o = outcome(r);
    let m = o.as_object_mut().unwrap();
    let msg = dec(m["err"]["msg"].as_str().unwrap());
    m.insert("sch".into(), c["sch"].clone());
    m.insert("doc".into(), c["doc"].clone());
    m.insert("hr".into(), json!(hr));
    m.insert("fault".into(), json!(fault(c).unwrap_or(0)));
    m.insert("fired".into(), json!(env.fired.get()));
    m.insert("marked".into(), json!(msg.contains(INJECTED_FMT)));
    m.insert(
        "vmarked".into(),
        json!(msg.contains(vcore::node::INJECTED)),
    );
    m["err"]["msg"] = json!(enc(&short(&msg)));
    m.insert("reads".into(), json!(env.reads.get()));
    m.insert("mk".into(), json!(c["mk"].as_str().unwrap_or("")));
    o
}

// ------------------------------------------------------------- round trips

fn strip(n: &Node) -> Node {
    let l = |v: &[Node]| v.iter().map(strip).collect::<Vec<_>>();
    let f = |v: &[(&'static str, Node)]| v.iter().map(|(k, x)| (*k, strip(x))).collect::<Vec<_>>();
    match n {
        Node::Obj(_, _, x) => strip(x),
        Node::Some(x) => Node::Some(Box::new(strip(x))),
        Node::NStruct(a, x) => Node::NStruct(a, Box::new(strip(x))),
        Node::NVariant(a, i, v, x) => Node::NVariant(a, *i, v, Box::new(strip(x))),
        Node::Seq(a, v) => Node::Seq(*a, l(v)),
        Node::Tuple(v) => Node::Tuple(l(v)),
        Node::TStruct(a, v) => Node::TStruct(a, l(v)),
        Node::TVariant(a, i, x, v) => Node::TVariant(a, *i, x, l(v)),
        Node::Map(a, v) => Node::Map(*a, v.iter().map(|(k, x)| (strip(k), strip(x))).collect()),
        Node::Struct(a, v) => Node::Struct(a, f(v)),
        Node::SVariant(a, i, x, v) => Node::SVariant(a, *i, x, f(v)),
        n => n.clone(),
    }
}

/// Map entries in a fixed order, for formats that do not keep it.
fn canon(n: &Node) -> Node {
    let l = |v: &[Node]| v.iter().map(canon).collect::<Vec<_>>();
    let f = |v: &[(&'static str, Node)]| v.iter().map(|(k, x)| (*k, canon(x))).collect::<Vec<_>>();
    match n {
        Node::Obj(a, b, x) => Node::Obj(a, b, Box::new(canon(x))),
        Node::CStr(x) | Node::BStr(x) => Node::Str(x.clone()),
        Node::Some(x) => Node::Some(Box::new(canon(x))),
        Node::NStruct(a, x) => Node::NStruct(a, Box::new(canon(x))),
        Node::NVariant(a, i, v, x) => Node::NVariant(a, *i, v, Box::new(canon(x))),
        Node::Seq(_, v) => Node::Seq(true, l(v)),
        Node::Tuple(v) => Node::Tuple(l(v)),
        Node::TStruct(a, v) => Node::TStruct(a, l(v)),
        Node::TVariant(a, i, x, v) => Node::TVariant(a, *i, x, l(v)),
        Node::Map(_, v) => {
            let mut v: Vec<_> = v.iter().map(|(k, x)| (canon(k), canon(x))).collect();
            v.sort_by_cached_key(|(k, _)| own_tokens(k).unwrap());
            Node::Map(true, v)
        }
        Node::Struct(a, v) => Node::Struct(a, f(v)),
        Node::SVariant(a, i, x, v) => Node::SVariant(a, *i, x, f(v)),
        n => n.clone(),
    }
}

/// A map or struct of the recorded stream becomes a map of the reference
/// format; `rot` moves its first entries to the end.
fn to_doc(t: &[Tok], pos: &mut usize, rot: usize) -> Doc {
    let k = t[*pos].clone();
    *pos += 1;
    let b = |x: Doc| Box::new(x);
    let s = |x: &str| Doc::Str('b', dec(x));
    let leaf = |k: &str, v: &str| Doc::parse(&json!({"k":k,"v":v,"c":[]}));
    match k[0].as_str() {
        "str" => s(&k[1]),
        "bytes" => leaf("bytesb", &k[1]),
        "unit" | "none" => leaf(&k[0], ""),
        "ustruct" => Doc::Unit,
        "uvariant" => s(&k[3]),
        "some" => Doc::Some(b(to_doc(t, pos, rot))),
        "nstruct" => Doc::Newtype(b(to_doc(t, pos, rot))),
        "nvariant" => Doc::Map(vec![(s(&k[3]), to_doc(t, pos, rot))]),
        "seq" | "tuple" | "tstruct" | "tvariant" => {
            let mut v = Vec::new();
            while t[*pos][0] == "e" {
                *pos += 1;
                v.push(to_doc(t, pos, rot));
            }
            *pos += 1;
            if k[0] == "tvariant" {
                Doc::Map(vec![(s(&k[3]), Doc::Seq(v))])
            } else {
                Doc::Seq(v)
            }
        }
        "map" | "struct" | "svariant" => {
            let mut v = Vec::new();
            loop {
                match t[*pos][0].as_str() {
                    "k" => {
                        *pos += 1;
                        let key = to_doc(t, pos, rot);
                        *pos += 1;
                        v.push((key, to_doc(t, pos, rot)));
                    }
                    "f" => {
                        let key = s(&t[*pos][1]);
                        *pos += 1;
                        v.push((key, to_doc(t, pos, rot)));
                    }
                    _ => break,
                }
            }
            *pos += 1;
            if !v.is_empty() {
                let n = rot % v.len();
                v.rotate_left(n);
            }
            if k[0] == "svariant" {
                Doc::Map(vec![(s(&k[3]), Doc::Map(v))])
            } else {
                Doc::Map(v)
            }
        }
        x => leaf(x, &k[1]),
    }
}

fn rec_write<T: ?Sized + Serialize>(v: &T, hr: bool) -> Result<Vec<Tok>, String> {
    let r = Rec::new(hr, None);
    v.serialize(r.clone()).map_err(|e| e.0)?;
    Ok(r.out().toks)
}

/// Through one of the tree formats: tree, tree1.. (first entries moved to the
/// end), each human readable or (suffix c) not.
fn tree_trip<W: ?Sized + Serialize, R: for<'de> Deserialize<'de>>(
    fmt: &str,
    v: &W,
) -> Result<R, String> {
    let hr = !fmt.ends_with('c');
    let rot = fmt[4..].trim_end_matches('c').parse().unwrap_or(0);
    let t = rec_write(v, hr)?;
    let doc = to_doc(&t, &mut 0, rot);
    R::deserialize(De::new(&doc, Env::new(hr, true, None))).map_err(|e| e.to_string())
}

fn trip<W: ?Sized + Serialize, R: for<'de> Deserialize<'de>>(fmt: &str, v: &W) -> Result<R, String> {
    if fmt.starts_with("tree") {
        tree_trip(fmt, v)
    } else if let Some(s) = fmt.strip_prefix("strict") {
        let hr = s != "c";
        let t = Tape::new(rec_write(v, hr)?, hr);
        let r = R::deserialize(Strict(t.clone())).map_err(|e| e.to_string())?;
        if !t.at_end() {
            return Err("input left over".into());
        }
        Ok(r)
    } else {
        #[cfg(feature = "fmts")]
        return fmts::read(fmt, &fmts::write(fmt, v)?);
        #[cfg(not(feature = "fmts"))]
        panic!("format {fmt}");
    }
}

fn verdict(want: &[Tok], got: Result<Vec<Tok>, String>) -> J {
    match got {
        Ok(t) => json!({"ok": true, "eq": t == want, "out": t, "err": ""}),
        Err(e) => json!({"ok": false, "eq": false, "out": [], "err": enc(&e)}),
    }
}

fn rt_node(fmt: &str, node: &Node) -> J {
    let want = own_tokens(&canon(node)).unwrap();
    let sch = Schema::of(node);
    let got = typed_mode(true, || {
        with_schema(&sch, || trip::<_, Top>(fmt, node)).map(|t| own_tokens(&canon(&t.0)).unwrap())
    });
    let mut v = verdict(&want, got);
    v["in"] = json!(want);
    v
}

fn rt_case(c: &J) -> J {
    let node = Parser::parse(&toks(&c["node"]));
    let fmt = c["fmt"].as_str().unwrap();
    // is the format up to the concrete value on its own?
    let dir = std::panic::catch_unwind(|| rt_node(fmt, &strip(&node)))
        .unwrap_or(json!({"ok": false, "eq": false, "out": [], "err": "panic", "in": []}));
    let obj = rt_node(fmt, &node);
    json!({"fmt": fmt, "dir": dir, "obj": obj})
}

fn strict_case(c: &J) -> J {
    let node = Parser::parse(&toks(&c["node"]));
    let hr = flag(c, "hr");
    let want = own_tokens(&canon(&node)).unwrap();
    let wrote = match rec_write(&node, hr) {
        Ok(t) => t,
        Err(e) => {
            return json!({"hr":hr,"in":want,"wrote":[],"asked":[],"end":false,"ok":false,"eq":false,"out":[],"err":enc(&e)})
        }
    };
    let t = Tape::new(wrote.clone(), hr);
    let sch = Schema::of(&node);
    let got = typed_mode(true, || {
        use serde::de::DeserializeSeed;
        (&sch)
            .deserialize(Strict(t.clone()))
            .map(|n| own_tokens(&canon(&n)).unwrap())
            .map_err(|e| e.to_string())
    });
    let mut v = verdict(&want, got);
    v["in"] = json!(want);
    v["hr"] = json!(hr);
    v["wrote"] = json!(wrote);
    v["asked"] = json!(*t.asked.borrow());
    v["end"] = json!(t.at_end());
    v
}

struct ZooRun<'a> {
    fmt: &'a str,
}
impl<'a> zoo::Runner for ZooRun<'a> {
    type Out = J;
    fn run<T: Serialize + for<'de> Deserialize<'de> + zoo::Zoo + Clone + 'static>(
        &mut self,
        v: T,
        ext: Box<dyn zoo::ZExt>,
        int: Box<dyn zoo::ZInt>,
        adj: Box<dyn zoo::ZAdj>,
        def: Box<dyn zoo::ZDef>,
    ) -> J {
        let want = v.toks();
        let fmt = self.fmt;
        let dir = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            verdict(&want, trip::<T, T>(fmt, &v).map(|x| x.toks()))
        }))
        .unwrap_or(json!({"ok": false, "eq": false, "out": [], "err": "panic"}));
        macro_rules! obj {
            ($x:ident, $t:ident) => {{
                let r = trip::<Box<dyn zoo::$t>, Box<dyn zoo::$t>>(fmt, &$x);
                let same = r.as_ref().map_or(false, |b| b.any().is::<T>() && b.ty() == v.ty());
                let mut o = verdict(&want, r.map(|b| b.toks()));
                o["same"] = json!(same);
                o
            }};
        }
        json!({"dir": dir, "in": want, "objs": [
            obj!(ext, ZExt), obj!(int, ZInt), obj!(adj, ZAdj), obj!(def, ZDef)]})
    }
}

fn zoo_case(c: &J) -> J {
    let fmt = c["fmt"].as_str().unwrap();
    let ty = c["ty"].as_str().unwrap();
    let mut o = zoo::run(ty, c["seed"].as_u64().unwrap(), &mut ZooRun { fmt });
    o["fmt"] = json!(fmt);
    o["ty"] = json!(ty);
    o
}

// ------------------------------------------------------------ any input at all

#[cfg(not(feature = "fmts"))]
fn enc_case(_: &J) -> J {
    panic!("built without formats")
}

/// The encoding of a value, for others to spoil.
#[cfg(feature = "fmts")]
fn enc_case(c: &J) -> J {
    let node = Parser::parse(&toks(&c["node"]));
    let data = match fmts::write(c["fmt"].as_str().unwrap(), &node) {
        Ok(fmts::Enc::Text(t)) => t.into_bytes(),
        Ok(fmts::Enc::Bytes(b)) => b,
        Ok(fmts::Enc::Value(_)) | Err(_) => return json!({"ok": false, "data": ""}),
    };
    json!({"ok": true, "data": hex(&data)})
}

#[cfg(not(feature = "fmts"))]
fn tot_case(_: &J) -> J {
    panic!("built without formats")
}

/// control characters in strings, which are read if bytes are asked for
#[cfg(feature = "fmts")]
fn lenient(e: &fmts::Enc) -> fmts::Enc {
    let fmts::Enc::Text(s) = e else { unreachable!() };
    let (mut inside, mut escaped) = (false, false);
    let change = |c: char| {
        let was = inside;
        inside = if escaped { inside } else { inside ^ (c == '"') };
        escaped = inside && !escaped && c == '\\';
        if was && c < ' ' {
            'x'
        } else {
            c
        }
    };
    fmts::Enc::Text(s.chars().map(change).collect())
}

#[cfg(feature = "fmts")]
fn tot_case(c: &J) -> J {
    let fmt = c["fmt"].as_str().unwrap();
    let cfg = intern(c["cfg"].as_str().unwrap());
    let sch = if c["node"].is_array() {
        Schema::of(&Parser::parse(&toks(&c["node"])))
    } else {
        Schema::Obj(cfg, Box::new(Schema::parse(&c["sch"])))
    };
    let data = unhex(c["data"].as_str().unwrap());
    let e = match fmt {
        "json" | "ron" => match String::from_utf8(data) {
            Ok(s) => fmts::Enc::Text(s),
            Err(_) => return json!({"fmt": fmt, "wf": false, "ok": false, "skip": true, "err": ""}),
        },
        _ => fmts::Enc::Bytes(data),
    };
    // is it well formed at all?  (formats that can tell)
    let wf = match fmt {
        "json" => fmts::read::<serde::de::IgnoredAny>(fmt, &lenient(&e)).is_ok(),
        "cbor" => fmts::read::<serde::de::IgnoredAny>(fmt, &e).is_ok(),
        "ron" => fmts::read::<serde::de::IgnoredAny>(fmt, &e).is_ok(),
        _ => true,
    };
    let r = typed_mode(true, || with_schema(&sch, || fmts::read::<Top>(fmt, &e)));
    json!({"fmt": fmt, "wf": wf, "ok": r.is_ok(), "skip": false,
           "err": enc(&r.err().unwrap_or_default())})
}

// ----------------------------------------------------------------- first use

/// Runs each thread's cases (`th`) step by step (`step`), all threads starting
/// a step at the same moment, some after a short while (`spin`).
fn race(input: &str, output: &str) {
    let mut progs: Vec<Vec<Vec<J>>> = Vec::new();
    let mut steps = 0;
    for l in std::fs::read_to_string(input).unwrap().lines() {
        let c: J = serde_json::from_str(l).expect("case");
        let (t, k) = (c["th"].as_u64().unwrap() as usize, c["step"].as_u64().unwrap() as usize);
        while progs.len() <= t {
            progs.push(Vec::new());
        }
        while progs[t].len() <= k {
            progs[t].push(Vec::new());
        }
        progs[t][k].push(c);
        steps = steps.max(k + 1);
    }
    let n = progs.len();
    let lines = Arc::new(Mutex::new(Vec::new()));
    let barrier = Arc::new(Barrier::new(n));
    let (done_tx, done_rx) = std::sync::mpsc::channel::<()>();
    for prog in progs {
        let (lines, barrier) = (lines.clone(), barrier.clone());
        let done = done_tx.clone();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut mine = Vec::new();
                for k in 0..steps {
                    barrier.wait();
                    for c in prog.get(k).into_iter().flatten() {
                        for _ in 0..c["spin"].as_u64().unwrap_or(0) {
                            std::hint::spin_loop();
                        }
                        mine.push(case(c));
                    }
                }
                lines.lock().unwrap().extend(mine);
                let _ = done.send(());
            })
            .unwrap();
    }
    drop(done_tx);
    for _ in 0..n {
        if done_rx.recv_timeout(std::time::Duration::from_secs(60)).is_err() {
            // blocked for ever
            std::process::exit(77);
        }
    }
    let mut f = std::fs::File::create(output).unwrap();
    for l in lines.lock().unwrap().iter() {
        writeln!(f, "{}", l).unwrap();
    }
}
