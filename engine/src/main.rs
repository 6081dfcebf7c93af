mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::fmt::Write as _;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// name \t entry \t max_steps \t max_depth \t segments
fn parse_template(l: &str) -> Template {
    let f: Vec<&str> = l.split('\t').collect();
    let mut segs = vec![];
    for s in f[4].split(' ').filter(|s| !s.is_empty()) {
        match s.as_bytes()[0] {
            b'x' => segs.push(Seg::Lit(unhex(&s[1..]))),
            b'r' => {
                let (n, h) = s[1..].split_once(':').expect("r");
                segs.push(Seg::Lit(unhex(h).repeat(n.parse().expect("n"))));
            }
            b'v' => {
                let (n, h) = s[1..].split_once(':').expect("v");
                let b = unhex(h);
                let mut d = [0u64; 4];
                for i in 0..256 {
                    if b[i / 8] >> (i % 8) & 1 != 0 {
                        d[i >> 6] |= 1 << (i & 63);
                    }
                }
                segs.push(Seg::Sym(n.parse().expect("v"), d));
            }
            _ => panic!("segment {}", s),
        }
    }
    Template { name: f[0].into(), entry: f[1].into(), max_steps: f[2].parse().unwrap(), max_depth: f[3].parse().unwrap(), segs }
}

fn main() {
    // symex MODULE TEMPLATES OUT THREADS SECONDS SAMPLES [stop=N: end after N templates with a violation]
    let a: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let text = Arc::new(std::fs::read_to_string(&a[1]).expect("module"));
    let mut m = match ir::parse_module(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("module: {}", e);
            std::process::exit(3);
        }
    };
    let unknown = prepare(&mut m);
    let m = Arc::new(m);
    let ts: Vec<Template> = std::fs::read_to_string(&a[2]).expect("templates").lines().filter(|l| !l.is_empty()).map(parse_template).collect();
    let threads: usize = a[4].parse().unwrap();
    let deadline = Instant::now() + Duration::from_secs_f64(a[5].parse().unwrap());
    let samples: usize = a[6].parse().unwrap();
    let stop: usize = a.get(7).and_then(|s| s.strip_prefix("stop=").map(|n| n.parse().expect("stop"))).unwrap_or(usize::MAX);
    let bad_templates = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(&a[3]).expect("out"))));
    {
        let mut o = out.lock().unwrap();
        let u: Vec<String> = unknown.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        writeln!(o, "{{\"kind\":\"module\",\"parse_ms\":{},\"functions\":{},\"unknown\":[{}]}}", t0.elapsed().as_millis(), m.funcs.iter().filter(|f| f.defined).count(), u.join(",")).unwrap();
    }
    let next = Arc::new(AtomicUsize::new(0));
    let halt = Arc::new(AtomicUsize::new(0));
    let ts = Arc::new(ts);
    let cov: Arc<Mutex<Vec<Vec<u8>>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for _ in 0..threads {
        let (ts, next, out, cov, halt, text, bad_templates) = (ts.clone(), next.clone(), out.clone(), cov.clone(), halt.clone(), text.clone(), bad_templates.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    // a private copy: shared reference counts are slow
                    let mut m = ir::parse_module(&text).expect("module");
                    prepare(&mut m);
                    let m = std::rc::Rc::new(m);
                    let mut en = Engine::new(m.clone());
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= ts.len() || halt.load(Ordering::SeqCst) != 0 {
                            break;
                        }
                        let t = &ts[i];
                        let st = Instant::now();
                        let z = (en.z3.queries, en.z3.sat, en.z3.unsat, en.z3.cached, en.z3.time_us);
                        let r = if st > deadline { Report { timeout: true, covers: vec![0; 64], ..Default::default() } } else { en.explore(t, deadline, samples, 20) };
                        let mut s = String::new();
                        let _ = write!(
                            s,
                            "{{\"kind\":\"template\",\"name\":\"{}\",\"entry\":\"{}\",\"paths\":{},\"dropped\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"sym_asserts\":{},\"maxdepth\":{},\"maxsteps\":{},\"ms\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"solver_us\":{},\"timeout\":{},\"live\":{},\"nodes\":{}",
                            esc(&t.name), t.entry, r.paths, r.dropped, r.instrs, r.forks, r.asserts, r.sym_asserts, r.maxdepth, r.maxsteps, st.elapsed().as_millis(),
                            en.z3.queries - z.0, en.z3.sat - z.1, en.z3.unsat - z.2, en.z3.cached - z.3, en.z3.time_us - z.4, r.timeout, r.live, en.pool.n.len()
                        );
                        match &r.error {
                            Some(e) => {
                                let _ = write!(s, ",\"error\":\"{}\"", esc(e));
                            }
                            None => s.push_str(",\"error\":null"),
                        }
                        if !r.maxinput.is_empty() {
                            let _ = write!(s, ",\"maxinput\":\"{}\"", hex(&r.maxinput));
                        }
                        s.push_str(",\"violations\":[");
                        for (k, v) in r.violations.iter().enumerate() {
                            let _ = write!(s, "{}{{\"what\":\"{}\",\"where\":\"{}\",\"input\":\"{}\",\"count\":{}}}", if k > 0 { "," } else { "" }, v.0, esc(&v.1), hex(&v.2), v.3);
                        }
                        s.push_str("],\"samples\":[");
                        for (k, v) in r.samples.iter().enumerate() {
                            let _ = write!(s, "{}[\"{}\",\"{:016x}\"]", if k > 0 { "," } else { "" }, hex(&v.0), v.1);
                        }
                        s.push_str("],\"covers\":{");
                        let c: Vec<String> = r.covers.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| format!("\"{}\":{}", i, n)).collect();
                        s.push_str(&c.join(","));
                        s.push_str("}}");
                        let mut o = out.lock().unwrap();
                        writeln!(o, "{}", s).unwrap();
                        if !r.violations.is_empty() && bad_templates.fetch_add(1, Ordering::SeqCst) + 1 >= stop {
                            halt.store(1, Ordering::SeqCst);
                        }
                        if en.z3.err.is_some() {
                            en = Engine::new(m.clone());
                        }
                    }
                    let mut c = cov.lock().unwrap();
                    if c.is_empty() {
                        *c = en.cov.clone();
                    } else {
                        for (x, y) in c.iter_mut().zip(en.cov.iter()) {
                            for (p, q) in x.iter_mut().zip(y.iter()) {
                                *p |= *q;
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    let mut bad = false;
    for h in hs {
        if h.join().is_err() {
            bad = true;
        }
    }
    let c = cov.lock().unwrap();
    let mut o = out.lock().unwrap();
    for (f, v) in m.funcs.iter().zip(c.iter()) {
        if f.defined && v[v.len() - 1] != 0 {
            let hit = v[..v.len() - 1].iter().filter(|x| **x != 0).count();
            let miss: Vec<String> = v[..v.len() - 1].iter().enumerate().filter(|x| *x.1 == 0).map(|x| x.0.to_string()).collect();
            writeln!(o, "{{\"kind\":\"func\",\"name\":\"{}\",\"edges\":{},\"hit\":{},\"miss\":[{}]}}", esc(&f.name), v.len() - 1, hit, miss.join(",")).unwrap();
        }
    }
    writeln!(o, "{{\"kind\":\"end\",\"ms\":{},\"halted\":{},\"crashed\":{}}}", t0.elapsed().as_millis(), halt.load(Ordering::SeqCst), bad).unwrap();
    o.flush().unwrap();
    if bad {
        std::process::exit(3);
    }
}
