//! C04: whatever is offered as a document is answered with the document it is, or an error.
use crate::{doc::*,engine::*,gen,model::Model,dump::*,conv,xmlr,xmlw,spec::*};
use super::io::*;
use folia::*;
use serde::{Serialize,Deserialize};

fn load_bytes(bytes: &[u8], file: bool) -> Result<Document,String> {
    match std::str::from_utf8(bytes) {
        Ok(s) if !file => Document::from_str(s,make_props(&Props::bare(),false)).map_err(|e| format!("{}",e)),
        _ => { let path = scratch("c04"); std::fs::write(&path,bytes).map_err(|e| e.to_string())?; let d = Document::from_file(path.to_str().unwrap(),make_props(&Props::bare(),false)).map_err(|e| format!("{}",e)); std::fs::remove_file(&path).ok(); d }
    }
}
///What the independent reader says about the bytes
enum Verdict { ///not a document, for this reason: has to be refused
    Refuse(String), ///this document
    Is(Doc), ///not for this harness to say
    Open(String) }
///Kinds of malformed XML that the library's XML reader does not look for (see DESIGN.md)
const LENIENT: &[&str] = &["-- in comment","bad character","character not allowed","]]> in text","< in attribute value","whitespace expected between","reference to a character","unbound prefix","name expected","unexpected markup declaration","CDATA outside","reference outside","text outside","unterminated processing","> in a processing","= expected","quote expected","> expected","bad character reference"];
const HARD: &[&str] = &["unterminated tag","unterminated attribute value","unterminated comment","unterminated CDATA","mismatched end tag","unclosed element","end tag without","duplicate attribute","second root","no root","undefined entity","unterminated reference","not UTF-8"];
fn number(v: &str) -> Option<u16> { v.parse().ok() }
///The canonical value, if the value is valid for its kind
pub fn valid(k: &str, v: &str) -> Option<String> {
    match k {
        "CONFIDENCE" => v.parse::<f64>().ok().filter(|f| !f.is_nan()).map(|f| format!("{}",f)),
        "OFFSET"|"LINENR" => number(v).map(|n| n.to_string()),
        "SPACE"|"NEWPAGE" => match v { "yes"|"true" => Some("yes".into()), "no"|"false" => Some("no".into()), _ => None },
        "DATETIME"|"begindatetime"|"enddatetime" => chrono::NaiveDateTime::parse_from_str(v,"%Y-%m-%dT%H:%M:%S").ok().map(|d| fmt_dt(&d)),
        "ANNOTATORTYPE"|"ptype" => if ["auto","manual","generator","datasource"].contains(&v) { Some(v.into()) } else { None },
        _ => Some(v.into())
    }
}
fn valid_proc(p: &mut Proc) -> Result<(),String> {
    valid("ptype",&p.ty).ok_or("invalid processor type")?;
    for (k,v) in p.fields.iter_mut() { *v = valid(k,v).ok_or_else(|| format!("invalid {} of a processor",k))?; }
    for s in p.subs.iter_mut() { valid_proc(s)? } Ok(())
}
///Is a namespace declared (or is there something that looks like it) that is not one of FoLiA's own? Elements and attributes of other namespaces are ignored
fn alien(bytes: &[u8]) -> bool {
    let mut i = 0; let mut first = true;
    while let Some(j) = bytes[i..].windows(5).position(|w| w == b"xmlns") {
        let mut k = i+j+5; i = k; let root = first && bytes[..k].iter().filter(|b| **b == b'<').count() <= 3; first = false;
        while k < bytes.len() && !matches!(bytes[k],b'"'|b'\''|b'>') { k += 1; }
        let v = &bytes[(k+1).min(bytes.len())..]; if root { continue; }
        if ![&b"http://ilk.uvt.nl/folia"[..],&b"http://www.w3.org/1999/xlink"[..]].iter().any(|n| v.starts_with(n) && k < bytes.len() && v.get(n.len()) == Some(&bytes[k])) { return true; }
    } false
}
fn verdict(bytes: &[u8]) -> Verdict {
    if alien(bytes) { return Verdict::Open("another namespace".into()); }
    if let Err(e) = std::str::from_utf8(bytes) { let v = &bytes[..e.valid_up_to()]; let last = |p: &[u8]| (0..v.len()).rev().find(|i| v[*i..].starts_with(p)); let tag = last(b"<"); if last(b"<?") > last(b"?>") || last(b"<!--") > last(b"-->") || tag.map_or(false,|i| v[i..].starts_with(b"<?") || v[i..].starts_with(b"<!")) || last(b"<!") > last(b">") || tag.map_or(false,|i| { let mut q = None; for b in &v[i..] { match (q,*b) { (None,b'"'|b'\'') => q = Some(*b), (Some(x),y) if x == y => q = None, (None,b'>') => return false, _ => {} } } q.is_none() }) || matches!(xmlr::read(String::from_utf8_lossy(bytes).as_bytes(),&[]),Err(e) if LENIENT.iter().any(|h| e.contains(h))) { return Verdict::Open("bad character in a comment or processing instruction".into()); } }
    xmlr::SPLIT.with(|s| s.set(true)); let x = xmlr::read(bytes,&[]); xmlr::SPLIT.with(|s| s.set(false));
    let x = match x { Ok(x) => x, Err(e) => return if HARD.iter().any(|h| e.starts_with(h)) { Verdict::Refuse(e) } else if LENIENT.iter().any(|h| e.contains(h)) { Verdict::Open(e) } else { panic!("verdict of the harness on {}",e) } };
    let mut x = x; fn strip(x: &mut xmlr::XEl) { if x.local != "processor" && x.local != "annotations" { x.attrs.retain(|(k,_)| xmlw::attr_of_xml(k).is_some() || !(k.contains(':') || k == "typegroup")); } for k in x.kids.iter_mut() { if let xmlr::XNode::El(e) = k { strip(e) } } } strip(&mut x); //attributes of other namespaces do not count
    let mut d = match conv::doc(&x) { Ok(d) => d, Err(e) => return if ["unknown element","unknown attribute","root element","unknown declaration","no body","two bodies"].iter().any(|h| e.starts_with(h)) || (e.starts_with("unexpected attribute") && e.ends_with("on <processor>")) { Verdict::Refuse(e) } else { Verdict::Open(e) } };
    let mut bad: Option<String> = None;
    d.body.visit_mut(&mut |e| for (k,v) in e.attrs.iter_mut() { match valid(k,v) { Some(c) => *v = c, None => if k == "CONFIDENCE" && v.parse::<f64>().is_ok() { bad.get_or_insert("NaN".into()); } else { bad.get_or_insert(format!("invalid {}",k)); } } });
    for p in d.procs.iter_mut() { if let Err(e) = valid_proc(p) { bad = Some(e) } }
    match bad { Some(b) if b == "NaN" => Verdict::Open(b), Some(b) => Verdict::Refuse(b), None => Verdict::Is(d) }
}
///Peculiarities of documents that the model does not decide
fn open(d: &Doc) -> Option<&'static str> {
    let mut why = None;
    d.body.visit(&mut |e| {
        if !gen::usable(&e.ty) { why = Some("types left alone"); }
        if e.ty != d.body.ty && (e.ty == "Text" || e.ty == "Speech") { why = Some("nested body"); }
        if e.attrs.iter().any(|(k,v)| k.starts_with("FEAT:") && v.trim().is_empty()) { why = Some("blank feature"); }
        if e.ty == "Feature" && (e.attr("SUBSET").is_none() || e.attr("SET").is_some()) { why = Some("odd feature"); }
    });
    if d.body.attrs.iter().any(|(k,_)| k.starts_with("FEAT:")) { why = Some("feature of the body"); }
    let mut keys = vec![]; for x in d.decs.iter() { if keys.contains(&(&x.at,&x.set)) { why = Some("repeated declaration"); } keys.push((&x.at,&x.set)); }
    let meta = |f: &Vec<(String,String)>| { let mut k: Vec<_> = f.iter().map(|x| &x.0).collect(); let n = k.len(); k.sort(); k.dedup(); k.len() < n };
    if meta(&d.meta.fields) || d.submeta.iter().any(|s| meta(&s.fields)) || d.all_procs().iter().any(|p| meta(&p.meta)) { why = Some("repeated metadata"); }
    why
}
pub fn judge(bytes: &[u8], file: bool, o: &mut Obs) -> Res {
    let lib = load_bytes(bytes,file);
    o.add(1);
    let show = || String::from_utf8_lossy(bytes).into_owned();
    if let Ok(d) = &lib { body(d).map_err(|e| format!("the loaded document is inconsistent: {}\n{}",e,show()))?; }
    //whatever is accepted can be saved, and is accepted again
    if let Ok(d) = &lib { let x = xml_of(d,0).map_err(|e| format!("the document is accepted, but can not be saved: {}\n{}",e,show()))?; if let Err(e) = load(&x,&Props::bare()) { return Err(format!("the document is accepted, but refused once saved: {}\n{}\n{}",e,show(),x)); } }
    //(a lone < after the whole document is the end of the input to the XML reader)
    if bytes.ends_with(b"<") && !matches!(verdict(&bytes[..bytes.len()-1]),Verdict::Refuse(_)) { o.label("left open: < after the document"); return Ok(()); }
    match (verdict(bytes),lib) {
        (Verdict::Refuse(why),Ok(_)) => Err(format!("accepted in spite of: {}\n{}",why,show())),
        (Verdict::Refuse(why),Err(_)) => { o.label(&format!("refused: {}",HARD.iter().cloned().find(|h| why.starts_with(h)).unwrap_or_else(|| why.split(|c: char| !c.is_alphabetic() && c != ' ').next().unwrap_or("").trim()))); o.nontrivial(true); Ok(()) }
        (Verdict::Open(_),Ok(_)) => { o.label("left open: accepted"); Ok(()) }
        (Verdict::Open(_),Err(_)) => { o.label("left open: refused"); Ok(()) }
        (Verdict::Is(d),lib) => {
            if let Some(w) = open(&d) { o.label(w); return Ok(()); }
            match (Model::load(&d,&Props::bare()),lib) {
                (Err(e),Ok(_)) => Err(format!("accepted in spite of: {}\n{}",e,show())),
                (Ok(_),Err(e)) => Err(format!("a valid document is refused: {}\n{}",e,show())),
                (Err(_),Err(_)) => { o.label("refused: invalid references"); o.nontrivial(true); Ok(()) }
                (Ok(m),Ok(l)) => {
                    o.label("still a document"); o.nontrivial(true);
                    let (mut a,mut b) = (body(&l)?,model_dump(&m)); for r in a.roots.iter_mut().chain(b.roots.iter_mut()) { merge_text(r) }
                    expect(&a,&b,"loaded document").map_err(|e| format!("{}\n{}",e,show()))
                }
            }
        }
    }
}
#[derive(Serialize,Deserialize)] pub struct Bytes { pub bytes: Vec<u8>, pub file: bool }
const TOKENS: &[&str] = &["<","</",">","/>","<?xml version=\"1.0\"?>","<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\">","</FoLiA>","<metadata>","</metadata>","<annotations>","</annotations>","<provenance>","</provenance>","<token-annotation/>","<pos-annotation set=\"s\">","</pos-annotation>","<annotator processor=\"p\"/>","<processor xml:id=\"p\">","</processor>","<meta id=\"m\">","</meta>","<submetadata xml:id=\"m\">","</submetadata>","<text>","</text>","<speech>","</speech>","<w>","</w>","<w xml:id=\"w\">","<t>","</t>","<pos class=\"N\"/>","<feat subset=\"a\" class=\"b\"/>","<entities>","</entities>","<entity>","</entity>","<wref id=\"w\"/>","<!--","-->","<![CDATA[","]]>","&","&amp;","&#x41;","&foo;","\"","'"," ","a","=","xml:id=\"w\"","class=\"x\"","\u{feff}","é","<!DOCTYPE x>","<?pi?>","x:","xmlns=\"\""];
fn soup(g: &mut G) -> Bytes {
    let mut v = vec![]; let n = g.below(1+g.size);
    let head = g.below(4);
    if head >= 1 { v.extend_from_slice(TOKENS[5].as_bytes()); } if head >= 2 { v.extend_from_slice(b"<metadata>"); } if head == 3 { v.extend_from_slice(b"<annotations><token-annotation/></annotations></metadata><text>"); }
    for _ in 0..n { match g.below(8) { 0 => v.push(g.below(256) as u8), _ => v.extend_from_slice(g.pick(TOKENS).as_bytes()) } }
    if head == 3 && g.chance(1,2) { v.extend_from_slice(b"</text></FoLiA>"); }
    Bytes { bytes: v, file: g.chance(1,16) }
}
fn check_bytes(c: &Bytes, o: &mut Obs) -> Res { judge(&c.bytes,c.file,o) }

fn small_doc(g: &mut G) -> Doc { let o = gen::Opts { ids: 3, ..Default::default() }; gen::doc(g,o) }
#[derive(Serialize,Deserialize)] pub struct Cut { pub doc: Doc, pub style: Vec<u8> }
fn cut(g: &mut G) -> Cut { let doc = small_doc(g); let mut style = vec![]; while style.len() < 20 && g.chance(4,5) { style.push(g.below(256) as u8) } Cut { doc, style } }
fn check_cut(c: &Cut, o: &mut Obs) -> Res {
    let xml = xmlw::write(&c.doc,&c.style); let b = xml.trim_end().as_bytes();
    let b = &b[..b.iter().rposition(|x| *x == b'A').unwrap_or(0)+1]; //the library does not miss the > of the very last tag
    //all of a short document, else a window and every 7th
    let n = b.len(); let w = c.style.iter().fold(7usize,|a,x| a.wrapping_mul(31).wrapping_add(*x as usize)) % n.max(1);
    for i in 0..n {
        if n > 1500 && !(i % 13 == w % 13 || (i >= w && i < w+150) || i+60 > n) { continue; }
        if load_bytes(&b[..i],false).is_ok() { return Err(format!("truncated at byte {} of {}, but accepted:\n{}",i,n,String::from_utf8_lossy(&b[..i]))); }
        o.add(1);
    }
    o.nontrivial(n > 300); o.label(if n > 1500 {"sampled"} else {"every byte"});
    Ok(())
}
#[derive(Serialize,Deserialize)] pub struct Mutant { pub doc: Doc, pub style: Vec<u8>, pub edits: Vec<(u8,u32,u32,u32)>, pub file: bool }
fn mutant(g: &mut G) -> Mutant { let c = cut(g); let mut edits = vec![]; while edits.len() < 6 && (edits.is_empty() || g.chance(1,2)) { edits.push((g.below(12) as u8,g.below(1<<20) as u32,g.below(1<<20) as u32,g.below(256) as u32)); } Mutant { doc: c.doc, style: c.style, edits, file: g.chance(1,16) } }
///positions where markup begins
fn edges(v: &[u8]) -> Vec<usize> { (0..v.len()).filter(|i| matches!(v[*i],b'<'|b'"'|b'\''|b'&')).collect() }
pub fn mutate(v: &mut Vec<u8>, e: &(u8,u32,u32,u32)) {
    if v.is_empty() { return; }
    let at = |x: u32, n: usize| (x as u64 * n as u64 >> 20) as usize;
    let tags: Vec<(usize,usize)> = { let mut r = vec![]; let mut i = 0; while i < v.len() { if v[i] == b'<' { if let Some(j) = v[i..].iter().position(|b| *b == b'>') { r.push((i,i+j+1)); i += j; } } i += 1; } r };
    match e.0 {
        0 => { let i = at(e.1,v.len()); v[i] = e.3 as u8; }
        1 => { let i = at(e.1,v.len()); v[i] ^= 1 << (e.3 % 8); }
        2 => { let i = at(e.1,v.len()); let n = (1+e.3 as usize % 40).min(v.len()-i); v.drain(i..i+n); }
        3 => { let i = at(e.1,v.len()); let t = TOKENS[e.3 as usize % TOKENS.len()].as_bytes(); v.splice(i..i,t.iter().cloned()); }
        4 => { let x = edges(v); if !x.is_empty() { let i = x[at(e.1,x.len())]; let t = TOKENS[e.3 as usize % TOKENS.len()].as_bytes(); v.splice(i..i,t.iter().cloned()); } }
        5 if !tags.is_empty() => { let (a,b) = tags[at(e.1,tags.len())]; v.drain(a..b); } //a tag goes
        6 if !tags.is_empty() => { let (a,b) = tags[at(e.1,tags.len())]; let t = v[a..b].to_vec(); v.splice(b..b,t); } //a tag twice
        7 if tags.len() > 1 => { let (i,j) = (at(e.1,tags.len()),at(e.2,tags.len())); let (i,j) = (i.min(j),i.max(j)); if i != j { let (x,y) = (v[tags[i].0..tags[i].1].to_vec(),v[tags[j].0..tags[j].1].to_vec()); v.splice(tags[j].0..tags[j].1,x); v.splice(tags[i].0..tags[i].1,y); } } //two tags swapped
        8 if !tags.is_empty() => { let (a,b) = tags[at(e.1,tags.len())]; let spaces: Vec<usize> = (a..b).filter(|i| v[*i] == b' ').collect(); if !spaces.is_empty() { let s = spaces[at(e.2,spaces.len())]; let t = b" class=\"x\"".to_vec(); v.splice(s..s,t); } } //an attribute more
        9 => { let i = at(e.1,v.len()); let j = at(e.2,v.len()); let (i,j) = (i.min(j),i.max(j)); let n = (j-i).min(400); let t = v[i..i+n].to_vec(); v.splice(j..j,t); }
        10|11 => { //in a value: a character of several bytes more, or another value
            let mut vals = vec![]; for (a,b) in tags.iter() { let mut q: Option<(u8,usize)> = None; for i in *a..*b { match q { None => if v[i] == b'"' || v[i] == b'\'' { q = Some((v[i],i+1)) }, Some((c,s)) => if v[i] == c { vals.push((s,i)); q = None; } } } }
            if vals.is_empty() { return; } let (a,b) = vals[at(e.1,vals.len())];
            if e.0 == 10 { let c = ["é","€","😀","\u{0301}","ß"][e.3 as usize % 5].as_bytes(); let mut places: Vec<usize> = (a..b).filter(|i| v[*i] & 0xc0 != 0x80).collect(); places.push(b); let i = places[at(e.2,places.len())]; if e.3 >= 128 && i < b { let mut n = 1; while i+n < b && v[i+n] & 0xc0 == 0x80 { n += 1; } v.splice(i..i+n,c.iter().cloned()); } else { v.splice(i..i,c.iter().cloned()); } }
            else { let t = odd(e.3 as usize,e.2 as usize); v.splice(a..b,t.bytes()); } }
        _ => {}
    }
}
///Values that are almost dates and numbers
const NEARLY: &[&str] = &["2020-01-02T03:04:05","2020-01-02T03:04:05.123","2020-01-02T03:04:05Z","2020-01-02T03:04:05+01:00","2020-01-02","03:04:05","0.5","-1","1e400","NaN","inf","4294967296","65536","00:00:01.000","","yes","auto","0","é","a b","2020-02-30T00:00:00","0000-00-00T00:00:00","+262143-12-31T23:59:60","99999999999999999999","native","2.1.0","9.9.9"];
fn odd(n: usize, x: usize) -> String { let mut t: Vec<char> = NEARLY[n % NEARLY.len()].chars().collect(); match x % 4 { 0 => {} 1 => { let k = (x/4) % (t.len()+1); t.insert(k,['é','€','😀'][x/128 % 3]) } 2 => if !t.is_empty() { let k = (x/4) % t.len(); t[k] = ['é','€','😀'][x/128 % 3] }, _ => { let k = (x/4) % (t.len()+1); t.truncate(k) } } t.into_iter().collect() }
fn check_mutant(c: &Mutant, o: &mut Obs) -> Res {
    let mut v = xmlw::write(&c.doc,&c.style).into_bytes();
    let was = v.clone();
    for e in c.edits.iter() { mutate(&mut v,e); }
    judge(&v,c.file,o).map_err(|e| { let a = v.iter().zip(was.iter()).take_while(|(a,b)| a == b).count(); let z = v.iter().rev().zip(was.iter().rev()).take_while(|(a,b)| a == b).count().min(v.len()-a).min(was.len()-a);
        let cutout = |v: &[u8]| String::from_utf8_lossy(&v[a.saturating_sub(80).min(v.len())..(v.len()-z+80).min(v.len()).max(a.saturating_sub(80))]).into_owned(); format!("[edited: {:?} was {:?}] {}",cutout(&v),cutout(&was),e) })
}
///faults planted at a place of the document's structure: all of them have to be refused
#[derive(Serialize,Deserialize)] pub struct Fault { pub doc: Doc, pub style: Vec<u8>, pub kind: usize, pub at: u32, pub pick: u32 }
const FAULTS: &[&str] = &["unknown element","unknown attribute","duplicate attribute","mismatched end tag","missing end tag","undefined entity in text","undefined entity in attribute","invalid UTF-8 in text","invalid UTF-8 in attribute","invalid UTF-8 in a name","content after the body","content after the root","second body","root in another namespace","root with another name","no namespace","end tag too many","unterminated comment","unterminated CDATA","attribute without value","unknown declaration","unknown empty element in the metadata","duplicate identifier","reference to nothing","invalid value","unknown processor attribute","declaration outside the declarations","unknown empty element before the body","element of another namespace as root"];
fn fault(g: &mut G) -> Fault { let c = cut(g); Fault { doc: c.doc, style: c.style, kind: g.below(FAULTS.len()), at: g.below(1<<20) as u32, pick: g.below(1<<16) as u32 } }
fn check_fault(c: &Fault, o: &mut Obs) -> Res {
    let at = |n: usize| (c.at as u64 * n as u64 >> 20) as usize;
    let mut doc = c.doc.clone(); let name = FAULTS[c.kind]; let p = c.pick as usize;
    //every element of the body has a name to be found by
    let mut style = c.style.clone();
    let mark = "xyzzy"; let mut target = at(doc.body.count()); let is_body = target == 0; let mut ty = String::new();
    doc.body.visit_mut(&mut |e| { if target == 0 { e.attrs.retain(|(k,_)| k != "N"); e.attrs.push(("N".into(),mark.into())); ty = e.ty.clone(); } target = target.wrapping_sub(1); });
    if ["no namespace","root in another namespace","root with another name","element of another namespace as root","duplicate attribute"].contains(&name) { style.clear(); }
    let mut ok = true;
    match name {
        "duplicate identifier" => { let mut n = 0; let mut first = true; doc.body.visit_mut(&mut |e| { if !first && ["Word","Sentence","Paragraph","Division","Entity","Head"].contains(&e.ty.as_str()) { n += 1; if n < 3 { e.set_attr("ID","twice"); } } first = false; }); if n < 2 { ok = false; } else { let mut ids = 0; doc.body.visit(&mut |e| if e.ty == "WordReference" { ids += 1 }); if ids > 0 { ok = false; } } }
        "invalid value" => { let mut first = true; let mut done = false; let (k,v) = [("CONFIDENCE","much"),("SPACE","perhaps"),("DATETIME","2020-13-01T00:00:00"),("ANNOTATORTYPE","robot"),("OFFSET","-1"),("LINENR","x"),("NEWPAGE","1"),("DATETIME","yesterday"),("CONFIDENCE",""),("OFFSET","1.5")][p % 10]; 
            let mut t: Vec<char> = "2020-01-02T03:04:05".chars().collect(); let i = p/40 % 20; let c = ['é','€','😀','x'][p/800 % 4]; if p % 4 == 0 || i == 19 { t.insert(i,c) } else { t[i] = c } let near: String = t.into_iter().collect();
            if p % 3 == 0 && !doc.procs.is_empty() { let f = if p % 2 == 0 { "begindatetime" } else { "enddatetime" }; fn nth<'a>(ps: &'a mut Vec<Proc>, n: &mut usize) -> Option<&'a mut Proc> { for q in ps.iter_mut() { if *n == 0 { return Some(q); } *n -= 1; if let Some(r) = nth(&mut q.subs,n) { return Some(r); } } None } let mut n = at(doc.all_procs().len()); let q = nth(&mut doc.procs,&mut n).unwrap(); q.fields.retain(|x| x.0 != f); q.fields.push((f.into(),near)); }
            else { let v = if k == "DATETIME" && p % 7 < 5 { near.as_str() } else { v };
            doc.body.visit_mut(&mut |e| { if !first && !done { e.set_attr(k,v); done = true; } first = false; }); if !done { ok = false } } }
        _ => {}
    }
    if !ok { o.label("not applicable"); return Ok(()); }
    let mut s = if name == "invalid value" { let mut d = doc.clone(); d.body.visit_mut(&mut |_| {}); xmlw::write(&d,&[]) } else { xmlw::write(&doc,&style) };
    let m = match s.find(mark) { Some(m) => m, None => { o.label("not applicable"); return Ok(()) } };
    let open = s[..m].rfind('<').unwrap(); let close = { let mut q = None; let mut r = m; for (i,b) in s.bytes().enumerate().skip(open) { match (q,b) { (None,b'"'|b'\'') => q = Some(b), (Some(x),y) if x == y => q = None, (None,b'>') => { r = i+1; break; } _ => {} } } r }; let empty = s[..close].ends_with("/>");
    let tagname: String = s[open+1..].chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
    let prefix = tagname.split_once(':').map(|(p,_)| format!("{}:",p)).unwrap_or_default();
    let mut bytes: Option<Vec<u8>> = None;
    let inside = |s: &mut String, x: &str| -> bool { if empty { false } else { s.insert_str(close,x); true } };
    let rootend = s.rfind("</").unwrap(); let root = s.find("FoLiA").unwrap();
    let done = match name {
        "unknown element" => { let t = ["foo","W","words","pos-annotation","t2","folia","x-1"][p % 7]; inside(&mut s,&if p % 2 == 0 { format!("<{}{}/>",prefix,t) } else { format!("<{}{}>x</{}{}>",prefix,t,prefix,t) }) }
        "unknown attribute" => { let t = ["foo","Class","xmlid","clas","colour","href","show"][p % 7]; s.insert_str(open+1+tagname.len(),&format!(" {}=\"a\"",t)); true }
        "duplicate attribute" => { s.insert_str(open+1+tagname.len()," n=\"a\""); true }
        "mismatched end tag" => { let t = if tagname.ends_with("w") {"s"} else {"w"}; if empty { s.replace_range(close-2..close,&format!("></{}{}>",prefix,t)); true } else { s.insert_str(close,&format!("</{}{}>",prefix,t)); true } }
        "missing end tag" => inside(&mut s,&format!("<{}w>",prefix)),
        "undefined entity in text" => inside(&mut s,["&foo;","&nbsp;","&AMP;","&#;","&#x110000;","&;","& ","a & b"][p % 8]),
        "undefined entity in attribute" => { s.insert_str(m,["&foo;","&nbsp;","&","& ","&#xZZ;"][p % 5]); true }
        "invalid UTF-8 in text" => if empty { false } else { let mut b = s.clone().into_bytes(); let x: &[u8] = [&b"\xff"[..],&b"\xc3("[..],&b"\xe2\x82"[..],&b"\xf0\x28\x8c\x28"[..],&b"\xed\xa0\x80"[..]][p % 5]; b.splice(close..close,x.iter().cloned()); bytes = Some(b); true },
        "invalid UTF-8 in attribute" => { let mut b = s.clone().into_bytes(); b.splice(m..m,b"\xfe".iter().cloned()); bytes = Some(b); true }
        "invalid UTF-8 in a name" => { let mut b = s.clone().into_bytes(); let i = open+1+tagname.len(); b.splice(i..i,b"\xff".iter().cloned()); bytes = Some(b); true }
        "content after the body" => { s.insert_str(rootend,&["<w/>","text","<text/>","<foo></foo>","<![CDATA[x]]>"][p % 5].replace('<',&format!("<{}",prefix)).replace(&format!("<{}/",prefix),&format!("</{}",prefix)).replace(&format!("<{}!",prefix),"<!")); true }
        "content after the root" => { s.push_str(["<w/>","<FoLiA/>","text","</FoLiA>","<a></a>"][p % 5]); true }
        "second body" => { s.insert_str(rootend,&format!("<{0}text><{0}s></{0}s></{0}text>",prefix)); true }
        "root in another namespace" => { s = s.replacen("http://ilk.uvt.nl/folia","http://ilk.uvt.nl/folia2",1); true }
        "root with another name" => { s = s.replacen("<FoLiA","<folia",1); let i = s.rfind("FoLiA").unwrap(); s.replace_range(i..i+5,"folia"); true }
        "no namespace" => { s = s.replacen(" xmlns=\"http://ilk.uvt.nl/folia\"","",1); true }
        "end tag too many" => { s.insert_str(rootend,&format!("</{}text>",prefix)); true }
        "unterminated comment" => inside(&mut s,"<!-- ") && !s[close+5..].contains("-->"),
        "unterminated CDATA" => inside(&mut s,"<![CDATA[") && !s[close+9..].contains("]]>"),
        "attribute without value" => { s.insert_str(open+1+tagname.len(),[" foo"," foo="," foo=x"," =\"a\""][p % 4]); true }
        "unknown declaration" => { let i = s.find("annotations>").map(|i| i+12); match i { Some(i) => { s.insert_str(i,&["<foo-annotation/>","<pos/>","<foo-annotation set=\"x\"></foo-annotation>","<pos-annotations/>"][p % 4].replace("</","\u{1}").replace('<',&format!("<{}",prefix)).replace('\u{1}',&format!("</{}",prefix))); true } None => false } }
        "unknown empty element in the metadata" => match s.find("metadata>") { Some(i) if style.is_empty() => { s.insert_str(i+9,["<foo/>","<w/>","<processor/>","<text/>"][p % 4]); true } _ => false },
        "declaration outside the declarations" => if style.is_empty() { let i = s.rfind("</metadata>").unwrap(); s.insert_str(i,["<pos-annotation/>","<annotator processor=\"p\"/>","<processor xml:id=\"outside\" name=\"x\" type=\"auto\"/>","<pos-annotation></pos-annotation>","<processor xml:id=\"outside\" name=\"x\" type=\"auto\"></processor>"][p % 5]); true } else { false },
        "unknown empty element before the body" => if style.is_empty() { let i = s.rfind("</metadata>").unwrap()+11; s.insert_str(i,["<foo/>","<w/>","<metadata/>"][p % 3]); true } else { false },
        "duplicate identifier" => s.matches("\"twice\"").count() + s.matches("'twice'").count() > 1,
        "reference to nothing" => inside(&mut s,&format!("<{0}entities><{0}entity><{0}wref id=\"nowhere.{1}\"/></{0}entity></{0}entities>",prefix,p)),
        "invalid value" => true,
        "unknown processor attribute" => match s.find("<processor ") { Some(i) => { s.insert_str(i+11,&format!("{}=\"x\" ",["foo","id","class","set","Name","annotator","processor","folia-version","xml:idx"][p % 9])); true } None => false },
        "element of another namespace as root" => { s = s.replacen("<FoLiA","<x:FoLiA xmlns:x=\"http://example.org\"",1); let i = s.rfind("FoLiA").unwrap(); s.insert_str(i,"x:"); true }
        _ => unreachable!()
    };
    let _ = (is_body,root);
    if !done { o.label("not applicable"); return Ok(()); }
    o.label(name); o.nontrivial(true);
    let bytes = bytes.unwrap_or_else(|| s.into_bytes());
    if let Ok(_) = load_bytes(&bytes,c.pick % 32 == 0) { return Err(format!("{}, but accepted:\n{}",name,String::from_utf8_lossy(&bytes))); }
    Ok(())
}
#[derive(Serialize,Deserialize)] pub struct Deep { pub ty: usize, pub depth: usize, pub closed: usize, pub width: usize }
const NEST: &[(&str,&str)] = &[("Division",""),("Quote",""),("List","ListItem"),("Part",""),("Note",""),("TextContent","TextMarkupStyle"),("Correction","New"),("Entity",""),("Alternative","Sentence"),("Table","Row")];
///Documents nested far deeper than a stack frame per level allows, in threads of a bounded stack
fn check_deep(c: &Deep, o: &mut Obs) -> Res {
    let (a,b) = NEST[c.ty % NEST.len()]; let mut s = String::from("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\"><metadata/><text>"); let (ta,tb) = (tag(a),if b.is_empty() { tag(a) } else { tag(b) });
    for i in 0..c.depth { s.push('<'); s.push_str(if i % 2 == 0 || a == "TextContent" && i == 0 { ta } else { tb }); s.push('>'); }
    for i in 0..c.width { s.push_str(if i % 2 == 0 {"<w/>"} else {"<s><t>x</t></s>"}); }
    for i in (0..c.depth).rev().take(c.closed) { s.push_str("</"); s.push_str(if i % 2 == 0 { ta } else { tb }); s.push('>'); }
    let whole = c.closed >= c.depth; s.push_str("</text></FoLiA>");
    o.nontrivial(c.depth > 1000); o.label(if whole {"closed"} else {"open"});
    match load(&s,&Props::bare()) {
        Ok(d) => { if !whole { return Err("accepted although elements are not closed".into()); }
            let n = c.depth + (0..c.width).map(|i| if i % 2 == 0 {1} else {2}).sum::<usize>() + 1; let m = n_elements(&d); if n != m { return Err(format!("{} elements instead of {}",m,n)); }
            let x = d.xml(0,0).map_err(|e| format!("{}",e))?; if c.depth < 3000 { let back = Document::from_str(std::str::from_utf8(&x).map_err(|e| e.to_string())?,make_props(&Props::bare(),false)).map_err(|e| format!("written again, it is refused: {}",e))?; if n_elements(&back) != n { return Err("written again, it has other elements".into()); } }
            Ok(()) }
        Err(e) => if whole { Err(format!("a deep document is refused: {}",e)) } else { Ok(()) }
    }
}
pub fn c04() -> Prop { Prop { id: "C04", rule: "a case is a sequence of bytes: random tokens, a truncated, mutated or deliberately damaged document, or a very deep one; truncations count one evaluation per cut; non-trivial: long enough, or judged one way or the other by the independent reader; distinct by content", assumptions: &["kinds of malformed XML that the XML library underneath does not look for are left open (see DESIGN.md), but must not crash","termination is judged by 20 s of processor time per case"],
    subs: vec![sub("soup",20000,600000,soup,check_bytes), sub("cut",250,6000,cut,check_cut), sub("mutant",24000,600000,mutant,check_mutant), sub("fault",12000,200000,fault,check_fault), sub("deep",60,400,|g| { let depth = match g.below(3) { 0 => g.below(100), 1 => g.below(3000), _ => g.below(20000) }; Deep { ty: g.below(NEST.len()), depth, closed: if g.chance(1,4) { g.below(depth+1) } else { depth }, width: g.below(20) } },check_deep)] } }
