//! C21: the command-line linter.
use crate::{doc::*,engine::*,gen,dump::*,conv,xmlw};
use super::io::*;
use super::bytes::mutate;
use folia::*;
use serde::{Serialize,Deserialize};
use std::process::{Command,Stdio};

#[derive(Serialize,Deserialize)] pub enum Content { Valid(Doc,Vec<u8>), Damaged(Doc,Vec<u8>,Vec<(u8,u32,u32,u32)>), Bytes(Vec<u8>), Missing, Directory, Same(usize) }
#[derive(Serialize,Deserialize)] pub struct LintCase { pub files: Vec<(String,Content)>, ///given by their names only, from the directory they are in
    #[serde(default)] pub relative: bool, ///files with a name that is not valid UTF-8
    #[serde(default)] pub odd: Vec<usize> }
fn style(g: &mut G) -> Vec<u8> { let mut s = vec![]; if g.chance(1,2) { while s.len() < 30 && (s.is_empty() || g.chance(19,20)) { s.push(g.below(256) as u8) } } s }
fn case(g: &mut G) -> LintCase {
    let mut files: Vec<(String,Content)> = vec![];
    while files.len() < 5 && (files.is_empty() || g.chance(1,2)) {
        let n = files.len(); let name = format!("{}{}{}",g.pick(&["doc","a b","\u{e9}","x'y","f\"q","-n","doc.folia"," doc","\u{a0}","e\u{301}","%41","*","~"]),n,g.pick(&[".xml",".folia.xml","",".XML",".xml ","\n","\u{a0}",".xml~",".gz"]));
        let c = match g.below(8) { 0..=2 => { let d = any_doc(g).doc; Content::Valid(d,style(g)) } 3..=4 => { let d = any_doc(g).doc; let s = style(g); let mut e = vec![]; while e.len() < 4 && (e.is_empty() || g.chance(1,2)) { e.push((g.below(10) as u8,g.below(1<<20) as u32,g.below(1<<20) as u32,g.below(1<<20) as u32)) } Content::Damaged(d,s,e) } 5 => Content::Bytes(match g.below(5) { 0 => vec![], 1 => g.bytes(60), 2 => b"\xef\xbb\xbf".to_vec(), 3 => b"<FoLiA/>".to_vec(), _ => gen::anytext(g).into_bytes() }), 6 => if g.chance(1,3) { Content::Directory } else { Content::Missing }, _ => if files.is_empty() { Content::Missing } else { Content::Same(g.below(n)) } };
        files.push((name,c));
    }
    let relative = g.chance(1,4) && !files.iter().any(|f| f.0.starts_with('-')); let mut odd = vec![]; if g.chance(1,6) { odd.push(g.below(files.len())); }
    LintCase { files, relative, odd }
}
fn bytes(c: &Content) -> Option<Vec<u8>> { match c { Content::Valid(d,s) => Some(xmlw::write(d,s).into_bytes()), Content::Damaged(d,s,e) => { let mut v = xmlw::write(d,s).into_bytes(); for x in e.iter() { mutate(&mut v,x) } Some(v) } Content::Bytes(b) => Some(b.clone()), _ => None } }
struct Tmp(std::path::PathBuf); impl Drop for Tmp { fn drop(&mut self) { std::fs::remove_dir_all(&self.0).ok(); } }
fn listing(p: &std::path::Path) -> Vec<String> { let mut v: Vec<String> = std::fs::read_dir(p).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default(); v.sort(); v }
pub fn linter() -> std::path::PathBuf { std::env::current_exe().expect("own path").parent().expect("directory").join("folialintr") }
fn sorted(x: &str) -> Result<Doc,String> { let mut d = conv::read_doc(x.as_bytes())?; d.meta.fields.sort(); for s in d.submeta.iter_mut() { s.fields.sort(); } d.submeta.sort_by(|a,b| a.id.cmp(&b.id)); for p in d.procs.iter_mut() { sort_proc(p) } Ok(d) }
fn check(c: &LintCase, o: &mut Obs) -> Res {
    let dir = Tmp(scratch("c21")); std::fs::create_dir_all(&dir.0).map_err(|e| e.to_string())?;
    let mut args: Vec<std::path::PathBuf> = vec![]; let mut written: Vec<(std::path::PathBuf,Vec<u8>)> = vec![];
    for (n,(name,f)) in c.files.iter().enumerate() { let p = if let Content::Same(i) = f { args[*i].clone() } else if c.odd.contains(&n) { use std::os::unix::ffi::OsStrExt; let mut b = name.as_bytes().to_vec(); b.push(0xff); o.label("name that is not UTF-8"); dir.0.join(std::ffi::OsStr::from_bytes(&b)) } else { dir.0.join(name) }; if let Some(b) = bytes(f) { std::fs::write(&p,&b).map_err(|e| e.to_string())?; written.push((p.clone(),b)); } if let Content::Directory = f { std::fs::create_dir(&p).map_err(|e| e.to_string())?; } args.push(p); }
    let before = listing(&dir.0);
    //what the library makes of the files
    let lib: Vec<Result<Document,String>> = args.iter().map(|p| Document::from_file(p.to_str().ok_or("name")?,DocumentProperties::default()).map_err(|e| format!("{}",e))).collect();
    let mut cmd = Command::new(linter()); if c.relative { o.label("relative names"); cmd.current_dir(&dir.0).args(args.iter().map(|p| p.file_name().unwrap())); } else { cmd.args(args.iter()); }
    let out = cmd.stdin(Stdio::null()).output().map_err(|e| format!("the linter does not start: {}",e))?;
    let (so,se) = (String::from_utf8(out.stdout).map_err(|_| "output is not UTF-8")?,String::from_utf8_lossy(&out.stderr).to_string());
    if out.status.code().is_none() || out.status.code() == Some(101) || se.contains("panicked at") { return Err(format!("the linter crashed: {}\n{}",out.status,se)); }
    if listing(&dir.0) != before { return Err(format!("files appear or disappear: {:?} instead of {:?}",listing(&dir.0),before)); } for (p,b) in written.iter() { if std::fs::read(p).ok().as_ref() != Some(b) { return Err(format!("{} was changed",p.display())); } }
    let good: Vec<&Document> = lib.iter().filter_map(|d| d.as_ref().ok()).collect(); let bad = lib.len()-good.len();
    o.nontrivial(!good.is_empty() || lib.len() > 1); if !good.is_empty() && bad > 0 { o.label("some loadable, some not"); } else if bad > 0 { o.label("none loadable"); } else { o.label("all loadable"); } if c.files.iter().any(|(_,f)| matches!(f,Content::Missing)) { o.label("missing file"); } if c.files.iter().any(|(_,f)| matches!(f,Content::Same(_))) { o.label("same file twice"); } o.add(lib.len() as u64);
    if bad > 0 && se.lines().filter(|l| !l.trim().is_empty()).count() < bad { return Err(format!("{} files do not load, but standard error says only {:?}",bad,se)); }
    let mut at: Vec<usize> = so.match_indices("<FoLiA").map(|(i,_)| i).filter(|i| *i == 0 || so.as_bytes()[*i-1] == b'\n').map(|i| { let t = so[..i].trim_end(); match t.rfind("<?xml") { Some(j) if t.ends_with("?>") && !t[j..].contains('\n') => j, _ => i } }).collect(); if !so.trim().is_empty() && at.first().map_or(true,|i| !so[..*i].trim().is_empty()) { return Err(format!("output before a document: {:?}",so.chars().take(200).collect::<String>())); }
    if at.len() != good.len() { return Err(format!("{} documents printed instead of {}; standard error: {}\n{}",at.len(),good.len(),se,so)); } at.push(so.len());
    for (i,d) in good.iter().enumerate() {
        let x = so[at[i]..at[i+1]].trim_end_matches('\n'); let want = xml_of(d,4)?;
        let (a,b) = (sorted(x).map_err(|e| format!("document {}: {}\n{}",i,e,x)),sorted(&want)); match (a,b) { (Ok(a),Ok(b)) => if a != b { return Err(format!("document {} is printed as\n{}\ninstead of\n{}",i,x,want)); }, (Err(e),Ok(_)) => return Err(e), (_,Err(_e)) => { if std::env::var("PBT_SHOW").is_ok() { eprintln!("UNREADABLE: {}",_e); } let (mut p,mut q): (Vec<&str>,Vec<&str>) = (x.lines().map(|l| l.trim()).collect(),want.lines().map(|l| l.trim()).collect()); p.sort(); q.sort(); if p != q { if std::env::var("PBT_SHOW").is_ok() { for (a,b) in p.iter().zip(q.iter()) { if a != b { eprintln!("LINES {:?} {:?}",a,b); } } } return Err(format!("document {} is printed as\n{}\ninstead of\n{}",i,x,want)); } } }
        if let Ok(p) = load(x,&Props::default_()) { let mut got = body(&p)?; let mut w = body(d)?; for t in got.roots.iter_mut().chain(w.roots.iter_mut()) { merge_text(t); } got.decs.clear(); w.decs.clear(); let names = |d: &DEl| { fn go(e: &DEl, v: &mut Vec<&'static str>) { v.push(e.ty); for x in e.data.iter() { if let DData::El(k) = x { go(k,v) } } } let mut v = vec![]; go(d,&mut v); v }; if got.roots.iter().map(names).collect::<Vec<_>>() != w.roots.iter().map(names).collect::<Vec<_>>() { return Err(format!("document {} printed with other elements\n{}",i,x)); } }
    }
    Ok(())
}
#[derive(Serialize,Deserialize)] pub struct NoArgs { pub n: usize }
fn check_none(_: &NoArgs, o: &mut Obs) -> Res { o.nontrivial = true; let out = Command::new(linter()).stdin(Stdio::null()).output().map_err(|e| e.to_string())?; if out.status.code() == Some(101) || out.status.code().is_none() { return Err("the linter crashed".into()); } if !out.stdout.is_empty() || out.stderr.is_empty() { return Err("without arguments, nothing is said on standard error".into()); } Ok(()) }
pub fn c21() -> Prop { Prop { id: "C21", rule: "a case is one to five file arguments (valid documents in random spellings, damaged documents, arbitrary bytes, missing files, directories, repetitions) given to the built linter; non-trivial: at least one loads, or there are several; distinct by content", assumptions: &["what loads is what Document::from_file with default properties loads (C01 and C04 decide that)","the exit status for files that do not load is not specified"],
    subs: vec![ sub("files",6000,60000,case,check), sub("no-arguments",1,1,|_| NoArgs { n: 0 },check_none) ] } }
