//! The property-based testing engine: recorded choice streams (so that every failure can be shrunk and replayed),
//! parallel deterministic search, shrinking, isolation of crashes and endless loops in child processes,
//! replay files and evidence.
use serde::{Serialize,Deserialize,de::DeserializeOwned};
use serde_json::{json,Value};
use std::collections::{BTreeMap,HashSet};
use std::sync::atomic::{AtomicBool,AtomicUsize,AtomicU64,Ordering};
use std::sync::{Mutex,Arc};
use std::hash::{Hash,Hasher};
use std::io::{Read,Write};

// ------------------------------------------------------------------------------------------------ choices
///A stream of choices: drawn at random and recorded, or replayed from a record (0 once exhausted)
pub struct G { state: u64, replay: Option<Vec<u32>>, pos: usize, pub rec: Vec<u32>, pub size: usize, pub index: usize }
impl G {
    pub fn random(seed: u64, size: usize, index: usize) -> G { G { state: seed, replay: None, pos: 0, rec: vec![], size, index } }
    pub fn replaying(v: Vec<u32>, size: usize, index: usize) -> G { G { state: 0, replay: Some(v), pos: 0, rec: vec![], size, index } }
    fn raw(&mut self) -> u32 {
        match &self.replay {
            Some(v) => { let x = v.get(self.pos).cloned().unwrap_or(0); self.pos += 1; x }
            None => { self.state = self.state.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.state; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); ((z ^ (z >> 31)) >> 32) as u32 }
        }
    }
    ///0..n, 0 being the simplest
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        let r = self.raw(); let x = if self.replay.is_some() { (r as usize).min(n-1) } else { ((r as u64 * n as u64) >> 32) as usize };
        self.rec.push(x as u32); x
    }
    ///true in num out of den cases, false being the simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) >= den-num }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b-a+1) }
    pub fn pick<'a,T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let mut x = self.below(w.iter().sum()); for (i,n) in w.iter().enumerate() { if x < *n { return i; } x -= n; } 0
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> { let mut v = vec![]; while v.len() < max && self.chance(max,max+1) { v.push(self.below(256) as u8) } v }
}

// ------------------------------------------------------------------------------------------------ observations
#[derive(Default)]
pub struct Obs { pub nontrivial: bool, pub labels: Vec<String>, pub evaluations: u64, pub probe: bool }
impl Obs {
    pub fn label(&mut self, s: &str) { if !self.labels.iter().any(|x| x == s) { self.labels.push(s.to_string()) } }
    pub fn nontrivial(&mut self, c: bool) { if c { self.nontrivial = true; } }
    ///a check that goes through many things at once says how many
    pub fn add(&mut self, n: u64) { self.evaluations += n; }
}
pub type Res = Result<(),String>;

pub struct Outcome { pub res: Res, pub obs: Obs, pub hash: u64, pub rec: Vec<u32>, pub case: Option<Value> }
pub trait Sub: Sync + Send {
    fn name(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> usize;
    fn run(&self, g: G, keep: bool) -> Outcome;
    fn check_json(&self, v: &Value) -> Result<Res,String>;
    ///the record and the case, without running the check
    fn generate(&self, g: G) -> (Vec<u32>,Value);
}
pub struct SubOf<C> { pub name: &'static str, pub quick: usize, pub thorough: usize, pub gen: fn(&mut G)->C, pub check: fn(&C,&mut Obs)->Res }
pub fn sub<C: Serialize+DeserializeOwned+'static>(name: &'static str, quick: usize, thorough: usize, gen: fn(&mut G)->C, check: fn(&C,&mut Obs)->Res) -> Box<dyn Sub> { Box::new(SubOf { name, quick, thorough, gen, check }) }

thread_local! { static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None); }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| { let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map_or(String::new(),|l| format!(" at {}:{}",l.file(),l.line())); PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}",m,l))); }));
}
pub fn guarded<T>(f: impl FnOnce()->T) -> Result<T,String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(x) => Ok(x), Err(_) => Err(format!("panicked: {}",PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())) }
}
impl<C: Serialize+DeserializeOwned> Sub for SubOf<C> {
    fn name(&self) -> &'static str { self.name }
    fn cases(&self, thorough: bool) -> usize { if thorough { self.thorough } else { self.quick } }
    fn run(&self, mut g: G, keep: bool) -> Outcome {
        let case = (self.gen)(&mut g);
        let json = serde_json::to_string(&case).expect("case to json");
        let mut h = std::collections::hash_map::DefaultHasher::new(); self.name.hash(&mut h); json.hash(&mut h);
        let mut obs = Obs::default();
        let res = match guarded(|| (self.check)(&case,&mut obs)) { Ok(r) => r, Err(p) => Err(p) };
        let keep = keep || res.is_err();
        Outcome { res, obs, hash: h.finish(), rec: g.rec, case: if keep { Some(serde_json::to_value(&case).expect("case to json")) } else { None } }
    }
    fn generate(&self, mut g: G) -> (Vec<u32>,Value) { let c = (self.gen)(&mut g); (g.rec,serde_json::to_value(&c).expect("case to json")) }
    fn check_json(&self, v: &Value) -> Result<Res,String> {
        let case: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(match guarded(|| (self.check)(&case,&mut Obs::default())) { Ok(r) => r, Err(p) => Err(p) })
    }
}

pub struct Prop { pub id: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str], pub subs: Vec<Box<dyn Sub>> }

// ------------------------------------------------------------------------------------------------ search
fn mix(parts: &[&str], seed: u64, index: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for p in parts { for b in p.bytes().chain([0u8]) { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } }
    h ^= index.wrapping_mul(0xD6E8FEB86659FD93); h ^= h >> 29; h = h.wrapping_mul(0xBF58476D1CE4E5B9); h ^ (h >> 32)
}
///sizes grow and shrink over the run, so that small and large cases are both tried at any time
fn size_of(index: usize) -> usize { if index % 127 == 126 { return 300; } [4,8,6,14,10,24,16,40,12,70][index % 10] }
fn new_g(prop: &str, sub: &dyn Sub, seed: u64, index: usize) -> G { G::random(mix(&[prop,sub.name()],seed,index as u64),size_of(index),index) }

#[derive(Serialize,Deserialize,Clone,Debug)]
pub struct Found { pub sub: usize, pub index: usize, pub message: String, pub rec: Vec<u32>, pub case: Value, #[serde(default)] pub shrinks: usize }
#[derive(Serialize,Deserialize,Default)]
pub struct Report { pub found: Option<Found>, pub evaluations: u64, pub distinct: u64, pub samples: Vec<Value>, pub labels: BTreeMap<String,BTreeMap<String,u64>>, pub per_sub: BTreeMap<String,(u64,u64)> }

fn cpu_ms(clock: libc::clockid_t) -> u64 { let mut t: libc::timespec = unsafe { std::mem::zeroed() }; if unsafe { libc::clock_gettime(clock,&mut t) } != 0 { return 0; } t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 }

pub const CASE_CPU_MS: u64 = 20_000;
pub const EXIT_HANG: i32 = 77;

///What a worker thread is doing; lives in a file shared with the parent, so that it survives a crash
#[repr(C)] struct Slot { sub: AtomicU64, index: AtomicU64, busy: AtomicU64, hang: AtomicU64 }
fn map_slots(path: &str, n: usize) -> &'static [Slot] {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("journal");
    let len = n*std::mem::size_of::<Slot>(); f.set_len(len as u64).expect("journal size");
    use std::os::unix::io::AsRawFd;
    unsafe { let p = libc::mmap(std::ptr::null_mut(),len,libc::PROT_READ|libc::PROT_WRITE,libc::MAP_SHARED,f.as_raw_fd(),0); assert!(p != libc::MAP_FAILED); std::slice::from_raw_parts(p as *const Slot,n) }
}
pub const STACK: usize = 8 << 20;
fn threads() -> usize { 8 }
pub struct Cfg { pub prop: String, pub seed: u64, pub thorough: bool, pub journal: String }

///Runs all cases of a property (in the child process)
pub fn search(p: &'static Prop, cfg: &Cfg) -> Report {
    let n = threads(); let slots = map_slots(&cfg.journal,n);
    //all work in order, in blocks
    let mut work: Vec<(usize,usize,usize)> = vec![];
    let maxn = p.subs.iter().map(|s| s.cases(cfg.thorough)).max().unwrap_or(0);
    let rounds = 40.min(maxn.max(1));
    for r in 0..rounds { for (i,s) in p.subs.iter().enumerate() { let c = s.cases(cfg.thorough); let (a,b) = (c*r/rounds,c*(r+1)/rounds); let mut x = a; while x < b { let y = (x+16).min(b); work.push((i,x,y)); x = y; } } }
    let work: &'static Vec<_> = Box::leak(Box::new(work));
    let next: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let stop: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let report = Arc::new(Mutex::new((Report::default(),HashSet::<u64>::new())));
    let (seed,thorough) = (cfg.seed,cfg.thorough); let _ = thorough;
    let starts: &'static Vec<AtomicU64> = Box::leak(Box::new((0..n).map(|_| AtomicU64::new(0)).collect()));
    let clocks: &'static Vec<AtomicU64> = Box::leak(Box::new((0..n).map(|_| AtomicU64::new(u64::MAX)).collect()));
    let mut hs = vec![];
    for w in 0..n {
        let report = report.clone();
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let mut c: libc::clockid_t = 0; unsafe { libc::pthread_getcpuclockid(libc::pthread_self(),&mut c); } clocks[w].store(c as i64 as u64,Ordering::SeqCst);
            let mut local: Vec<(usize,usize,Outcome)> = vec![];
            loop {
                let k = next.fetch_add(1,Ordering::SeqCst);
                if k >= work.len() || stop.load(Ordering::SeqCst) { break; }
                let (si,a,b) = work[k]; let s = &*p.subs[si];
                for index in a..b {
                    slots[w].sub.store(si as u64,Ordering::SeqCst); slots[w].index.store(index as u64,Ordering::SeqCst);
                    starts[w].store(cpu_ms(libc::CLOCK_THREAD_CPUTIME_ID),Ordering::SeqCst); slots[w].busy.store(1,Ordering::SeqCst);
                    let o = s.run(new_g(p.id,s,seed,index),index < 2 || index % 997 == 1);
                    slots[w].busy.store(0,Ordering::SeqCst);
                    if o.res.is_err() { stop.store(true,Ordering::SeqCst); }
                    local.push((si,index,o));
                }
                let mut g = report.lock().unwrap(); let (r,seen) = &mut *g;
                for (si,index,o) in local.drain(..) {
                    let s = &*p.subs[si];
                    r.evaluations += 1 + o.obs.evaluations;
                    let e = r.per_sub.entry(s.name().to_string()).or_default(); e.0 += 1;
                    if o.obs.nontrivial && seen.insert(o.hash) { r.distinct += 1; e.1 += 1; }
                    let l = r.labels.entry(s.name().to_string()).or_default(); for x in o.obs.labels { *l.entry(x).or_default() += 1; }
                    if let Some(c) = o.case { if o.res.is_ok() && o.obs.nontrivial && r.samples.iter().filter(|x| x["sub"] == s.name()).count() < 2 { let t = c.to_string(); if t.len() < 6000 { r.samples.push(json!({"sub": s.name(), "index": index, "case": c})); } else { r.samples.push(json!({"sub": s.name(), "index": index, "case_beginning": t.chars().take(2000).collect::<String>()})); } }
                        if let Err(m) = o.res { if r.found.as_ref().map_or(true,|f| (f.sub,f.index) > (si,index)) { r.found = Some(Found { sub: si, index, message: m, rec: o.rec, case: c, shrinks: 0 }); } } }
                }
            }
        }).expect("thread"));
    }
    //watchdog: processor time of one case, never wall clock time
    let done: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let dog = std::thread::spawn(move || { while !done.load(Ordering::SeqCst) { std::thread::sleep(std::time::Duration::from_millis(200)); for w in 0..n { let c = clocks[w].load(Ordering::SeqCst); if c != u64::MAX && slots[w].busy.load(Ordering::SeqCst) == 1 {
        let t = cpu_ms(c as i64 as libc::clockid_t); if slots[w].busy.load(Ordering::SeqCst) == 1 && t > starts[w].load(Ordering::SeqCst) + CASE_CPU_MS { slots[w].hang.store(1,Ordering::SeqCst); unsafe { libc::_exit(EXIT_HANG) } } } } } });
    //(a thread that panics outside of a check is a mistake of the harness, and not to be passed over)
    let broken = hs.into_iter().map(|h| h.join().is_err()).filter(|b| *b).count();
    done.store(true,Ordering::SeqCst); let _ = dog.join();
    assert!(broken == 0,"{} threads panicked",broken);
    let mut g = report.lock().unwrap(); assert!(g.0.found.is_some() || next.load(Ordering::SeqCst) >= work.len(),"not everything was run"); std::mem::take(&mut g.0)
}

// ------------------------------------------------------------------------------------------------ shrinking
///Simplifies a record as long as it keeps failing
pub fn shrink(mut rec: Vec<u32>, budget: usize, cpu_budget_ms: u64, fails: &mut dyn FnMut(Vec<u32>)->Option<Vec<u32>>) -> (Vec<u32>,usize) {
    let mut tries = 0; let mut ok = 0;
    let t0 = std::time::Instant::now(); //bounds the effort only, not the verdict
    let better = |a: &Vec<u32>, b: &Vec<u32>| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut progress = true;
    while progress {
        progress = false;
        let over = |tries: usize| tries >= budget || t0.elapsed().as_millis() as u64 > cpu_budget_ms;
        //delete chunks
        let mut size = (rec.len()/2).max(1);
        while size >= 1 {
            let mut i = rec.len();
            while i > 0 {
                if over(tries) { return (rec,ok); }
                let a = i.saturating_sub(size); let b = i.min(rec.len()); i = a; if a >= b { continue; }
                let mut c = rec.clone(); c.drain(a..b); tries += 1;
                if let Some(r) = fails(c) { if better(&r,&rec) { rec = r; ok += 1; progress = true; } }
            }
            if size == 1 { break; } size = if size > 8 { size/2 } else { size-1 };
        }
        //zero chunks, then lower single values
        for size in [16usize,4,1] { let mut a = 0; while a < rec.len() {
            if over(tries) { return (rec,ok); }
            let b = (a+size).min(rec.len());
            if rec[a..b].iter().any(|x| *x != 0) { let mut c = rec.clone(); for x in &mut c[a..b] { *x = 0; } tries += 1; if let Some(r) = fails(c) { if better(&r,&rec) { rec = r; ok += 1; progress = true; } } }
            a += size;
        } }
        let mut i = 0; while i < rec.len() {
            let mut lo = 0u32; while i < rec.len() && lo < rec[i] { if over(tries) { return (rec,ok); } let mid = lo+(rec[i]-lo)/2; let mut c = rec.clone(); c[i] = mid; tries += 1; match fails(c) { Some(r) if better(&r,&rec) => { rec = r; ok += 1; progress = true; }, _ => lo = mid+1 } }
            i += 1;
        }
        if over(tries) { break; }
    }
    (rec,ok)
}
fn shrink_found(p: &'static Prop, f: &mut Found) {
    let s = &*p.subs[f.sub]; let (size,index) = (size_of(f.index),f.index);
    let (rec,n) = shrink(f.rec.clone(),4000,40_000,&mut |c| { let o = s.run(G::replaying(c,size,index),false); if o.res.is_err() { Some(o.rec) } else { None } });
    f.shrinks = n;
    let o = s.run(G::replaying(rec.clone(),size,index),true);
    if let (Err(m),Some(c)) = (o.res,o.case) { f.rec = rec; f.message = m; f.case = c; }
}
///Runs one case from its record in a process of its own: Ok(None) passed, Ok(Some(message)) failed
fn run_apart(prop: &str, sub: usize, index: usize, rec: Option<&[u32]>, cfg: &Cfg) -> Option<(String,Vec<u32>)> {
    let recfile = format!("{}.rec",cfg.journal);
    let input = match rec { Some(r) => serde_json::to_string(r).unwrap(), None => "null".into() };
    let mut c = std::process::Command::new(std::env::current_exe().unwrap()).args(["one",prop,&sub.to_string(),&index.to_string(),&cfg.seed.to_string(),&recfile]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("spawn");
    c.stdin.take().unwrap().write_all(input.as_bytes()).ok();
    let mut out = String::new(); c.stdout.take().unwrap().read_to_string(&mut out).ok();
    let st = c.wait().expect("wait");
    let rec = std::fs::read_to_string(&recfile).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    use std::os::unix::process::ExitStatusExt;
    match (st.code(),st.signal()) { (Some(0),_) => None, (Some(1),_) => Some((out,rec)), (c,s) => Some((if s == Some(libc::SIGXCPU) || s == Some(libc::SIGKILL) || c == Some(EXIT_HANG) { "does not terminate (or runs out of memory)".to_string() } else { format!("the process died (code {:?}, signal {:?}: stack overflow, abort or out of memory)",c,s) },rec)) }
}
///child: one case, with limits; writes the record before running the check
pub fn one(p: &'static Prop, sub: usize, index: usize, seed: u64, recfile: &str) -> i32 {
    let mut s = String::new(); std::io::stdin().read_to_string(&mut s).ok();
    let rec: Option<Vec<u32>> = serde_json::from_str(&s).ok().flatten();
    limits(); install_panic_hook();
    let recfile = recfile.to_string();
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let sb = &*p.subs[sub];
        let g = match &rec { Some(r) => G::replaying(r.clone(),size_of(index),index), None => new_g(p.id,sb,seed,index) };
        //the record must survive a crash of the check, so it is generated first
        let g2 = match &rec { Some(r) => G::replaying(r.clone(),size_of(index),index), None => new_g(p.id,sb,seed,index) };
        std::fs::write(&recfile,serde_json::to_string(&sb.generate(g2).0).unwrap()).ok();
        let o = sb.run(g,false);
        match o.res { Ok(()) => 0, Err(m) => { std::fs::write(&recfile,serde_json::to_string(&o.rec).unwrap()).ok(); println!("{}",m); 1 } }
    }).unwrap();
    h.join().unwrap_or(1)
}
fn limits() { unsafe {
    let l = libc::rlimit { rlim_cur: CASE_CPU_MS/1000, rlim_max: CASE_CPU_MS/1000+2 }; libc::setrlimit(libc::RLIMIT_CPU,&l);
    let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 }; libc::setrlimit(libc::RLIMIT_AS,&l);
    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE,&l);
} }

// ------------------------------------------------------------------------------------------------ parent
///(cases may be nested deeply)
fn parse<T: DeserializeOwned>(s: &str) -> Result<T,serde_json::Error> { let mut d = serde_json::Deserializer::from_str(s); d.disable_recursion_limit(); T::deserialize(&mut d) }
fn replay_path(prop: &str) -> String { std::fs::create_dir_all("replays").ok(); format!("replays/{}.json",prop) }
fn write_replay(p: &Prop, f: &Found) -> String {
    let path = replay_path(p.id);
    std::fs::write(&path,serde_json::to_string_pretty(&json!({"property": p.id, "sub": p.subs[f.sub].name(), "message": f.message, "case": f.case})).unwrap()).expect("replay file");
    path
}
pub fn child(p: &'static Prop, cfg: &Cfg) -> i32 {
    install_panic_hook();
    unsafe { let l = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 }; libc::setrlimit(libc::RLIMIT_AS,&l); let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE,&l); }
    let mut r = search(p,cfg);
    std::fs::write(format!("{}.report",cfg.journal),serde_json::to_string(&r).unwrap()).expect("report");
    if let Some(f) = r.found.as_mut() { //a failure that is kept even if shrinking should run into a crash
        let fc = f.clone();
        let h = std::thread::Builder::new().stack_size(STACK).spawn(move || { let mut f = fc; shrink_found(p,&mut f); f }).unwrap();
        if let Ok(x) = h.join() { *f = x; std::fs::write(format!("{}.report",cfg.journal),serde_json::to_string(&r).unwrap()).expect("report"); }
    }
    0
}
///Runs the check: exit code
pub fn run(p: &'static Prop, seed: u64, thorough: bool, known: &dyn Fn(&str)->Vec<String>) -> i32 {
    let t0 = std::time::Instant::now();
    let dir = std::env::temp_dir().join(format!("pbt-{}-{}",p.id,std::process::id())); std::fs::create_dir_all(&dir).expect("scratch");
    let cfg = Cfg { prop: p.id.into(), seed, thorough, journal: dir.join("journal").to_str().unwrap().to_string() };
    let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["child",p.id,&seed.to_string(),if thorough {"thorough"} else {"quick"},&cfg.journal]).stderr(std::process::Stdio::null()).status().expect("child");
    let report: Option<Report> = std::fs::read_to_string(format!("{}.report",cfg.journal)).ok().and_then(|s| parse(&s).ok());
    let mut broken = if st.success() && report.is_none() { Some("the search left no report".to_string()) } else { None };
    let mut report = report.unwrap_or_default();
    if !st.success() && report.found.is_none() {
        //a crash: find out which of the running cases did it, in isolation
        let slots = map_slots(&cfg.journal,threads());
        let mut c: Vec<(u64,usize,usize)> = slots.iter().filter(|s| s.busy.load(Ordering::SeqCst) == 1).map(|s| (1-s.hang.load(Ordering::SeqCst),s.sub.load(Ordering::SeqCst) as usize,s.index.load(Ordering::SeqCst) as usize)).collect();
        c.sort();
        broken = Some(format!("the search ended with {:?} and no single case reproduces it",st));
        for (_,sub,index) in c {
            if let Some((m,rec)) = run_apart(p.id,sub,index,None,&cfg) {
                let slow = m.starts_with("does not");
                let mut msg = m;
                let (rec,n) = shrink(rec,if slow {30} else {1500},60_000,&mut |r| run_apart(p.id,sub,index,Some(&r),&cfg).map(|(m,rec)| { msg = m; rec }));
                let case = p.subs[sub].generate(G::replaying(rec.clone(),size_of(index),index)).1;
                report.found = Some(Found { sub, index, message: msg, rec, case, shrinks: n }); broken = None; break;
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    let findings = known(p.id);
    for k in findings.iter() { println!("KNOWN-FINDING: property={} {}",p.id,k); }
    let ev = json!({"property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": report.evaluations, "distinct_nontrivial": report.distinct, "rule": p.rule, "samples": report.samples, "per_sub": report.per_sub.iter().map(|(k,v)| (k.clone(),json!({"cases": v.0, "distinct_nontrivial": v.1}))).collect::<BTreeMap<_,_>>(), "labels": report.labels},
        "assumptions": p.assumptions, "known_findings": findings, "wall_s": t0.elapsed().as_secs_f64(), "violations": report.found.is_some() as u32});
    std::fs::create_dir_all("evidence").ok(); std::fs::write(format!("evidence/{}.json",p.id),serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    match (&report.found,broken) {
        (Some(f),_) => { let path = write_replay(p,f); println!("{} [{}] case {} after {} shrinking steps: {}",p.id,p.subs[f.sub].name(),f.index,f.shrinks,f.message); println!("VIOLATION property={} replay={}",p.id,path); 1 }
        (None,Some(b)) => { println!("{}: {}",p.id,b); 2 }
        _ => { println!("{}: held on {} cases ({} distinct and non-trivial) in {:.1} s",p.id,report.evaluations,report.distinct,t0.elapsed().as_secs_f64()); 0 }
    }
}
pub fn replay(p: &'static Prop, file: &str) -> i32 {
    install_panic_hook();
    let v: Value = parse(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let s = p.subs.iter().find(|s| v["sub"] == s.name()).expect("no such sub");
    let h = std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc,|| s.check_json(&v["case"])).unwrap().join().unwrap());
    match h { Ok(Ok(())) => { println!("passes"); 0 }, Ok(Err(m)) => { println!("fails: {}",m); println!("VIOLATION property={} replay={}",p.id,file); 1 }, Err(e) => { println!("bad case: {}",e); 2 } }
}
