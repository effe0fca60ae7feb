//! C18: document metadata and submetadata.
use crate::{doc::*,engine::*,gen,dump::*,conv,xmlw};
use super::io::*;
use folia::*;
use serde::{Serialize,Deserialize};
use std::collections::BTreeMap;

type Block = (Option<String>,Option<String>,BTreeMap<String,String>);
#[derive(Clone,PartialEq,Debug,Default)] struct State { id: String, main: Block, subs: BTreeMap<String,Block> }
#[derive(Serialize,Deserialize)] pub enum Item { Field(String,String), Sub(Meta), Annotations, Provenance }
#[derive(Serialize,Deserialize)] pub enum Op { Put(usize,String,String), Drop(usize,usize), Type(usize,Option<String>), Src(usize,Option<String>), Add(String), Remove(usize), Cycle(usize) }
#[derive(Serialize,Deserialize)] pub struct MetaCase { id: String, ty: Option<String>, src: Option<String>, items: Vec<Item>, procs: Vec<Proc>, style: Vec<u8>, ops: Vec<Op>, new: bool, file: bool }
fn key(g: &mut G) -> String { match g.below(8) { 0..=5 => g.pick(&["title","author","language","date","t\u{e9}","a b","<x>"]).to_string(), 6 => { let s = *g.pick(&["title","author","language","date","a b"]); gen::near(g,s) } _ => gen::nonempty(g) } }
fn val(g: &mut G) -> String { match g.below(6) { 0 => String::new(), 1 => g.pick(&[" ","\n"," x ","\n\n a\n","a & b","]]>","<b>","&amp;","\t","0"]).to_string(), 2 => gen::value(g), _ => gen::anytext(g) } }
fn opt(g: &mut G) -> Option<String> { if g.chance(1,2) { Some(gen::value(g)) } else { None } }
fn case(g: &mut G) -> MetaCase {
    let new = g.chance(1,5); let mut n = 0; let mut procs = vec![]; while procs.len() < 3 && g.chance(1,2) { procs.push(gen::proc(g,&mut n,false,0)); }
    let mut items = vec![]; let mut keys: Vec<String> = vec![]; let mut subs = 0;
    if !new { while items.len() < 12 && g.chance(5,6) { if g.chance(1,3) {
            let mut m = Meta { id: match g.below(8) { 0..=5 => format!("sub.{}",subs), 6 => { let s = format!("sub.{}",subs-if subs > 0 {1} else {0}); gen::near(g,&s) } _ => format!("{}{}",gen::nonempty(g),subs) }, ty: opt(g), src: opt(g), fields: vec![] }; subs += 1; if items.iter().any(|i| matches!(i,Item::Sub(x) if x.id == m.id)) { continue; }
            while m.fields.len() < 5 && g.chance(3,4) { let k = key(g); if !m.fields.iter().any(|(n,_)| *n == k) { let v = val(g); m.fields.push((k,v)); } } items.push(Item::Sub(m));
        } else { let k = key(g); if !keys.contains(&k) { keys.push(k.clone()); let v = val(g); items.push(Item::Field(k,v)); } } }
        let i = g.below(items.len()+1); items.insert(i,Item::Annotations); let i = g.below(items.len()+1); items.insert(i,Item::Provenance); }
    let mut style = vec![]; if g.chance(2,3) { while style.len() < 40 && (style.is_empty() || g.chance(19,20)) { style.push(g.below(256) as u8) } }
    let mut ops = vec![]; while ops.len() < 12 && g.chance(5,6) { ops.push(match g.below(12) { 0..=4 => Op::Put(g.below(5),key(g),val(g)), 5 => Op::Drop(g.below(5),g.below(5)), 6 => Op::Type(g.below(5),opt(g)), 7 => Op::Src(g.below(5),opt(g)), 8 => Op::Add(if g.chance(3,4) { format!("new.{}",g.below(3)) } else { gen::nonempty(g) }), 9 => Op::Remove(g.below(5)), _ => Op::Cycle(g.below(4)) }); }
    MetaCase { id: if g.chance(1,2) { "doc".into() } else { gen::nonempty(g) }, ty: opt(g), src: opt(g), items, procs, style, ops, new, file: g.chance(1,20) }
}
fn write(c: &MetaCase) -> String {
    let mut w = xmlw::Writer::new(xmlw::Style::new(&c.style)); let d = Doc { procs: c.procs.clone(), ..Default::default() };
    let attrs = |m: (&Option<String>,&Option<String>)| { let mut a: Vec<Attr> = vec![]; if let Some(t) = m.0 { a.push(("type".into(),t.clone())); } if let Some(t) = m.1 { a.push(("src".into(),t.clone())); } a };
    w.open("FoLiA",vec![("xmlns".into(),"http://ilk.uvt.nl/folia".into()),("xml:id".into(),c.id.clone()),("version".into(),"2.1.0".into())],false); w.gap();
    w.open("metadata",attrs((&c.ty,&c.src)),false); w.gap();
    for i in c.items.iter() { match i {
        Item::Field(k,v) => w.meta(&[(k.clone(),v.clone())]), Item::Annotations => w.annotations(&d), Item::Provenance => w.provenance(&d),
        Item::Sub(s) => { let mut a: Vec<Attr> = vec![("xml:id".into(),s.id.clone())]; a.extend(attrs((&s.ty,&s.src))); if s.fields.is_empty() { w.void("submetadata",a) } else { w.open("submetadata",a,false); w.gap(); w.meta(&s.fields); w.close("submetadata"); } w.gap(); }
    } }
    w.close("metadata"); w.gap(); w.void("text",vec![("xml:id".into(),"body".into())]); w.gap(); w.close("FoLiA"); w.out
}
fn view(m: &Metadata) -> Block { (m.metadatatype.clone(),m.src.clone(),m.data.iter().map(|(a,b)| (a.clone(),b.clone())).collect()) }
fn state(d: &Document) -> State { State { id: d.id.clone(), main: view(&d.metadata), subs: d.submetadata.iter().map(|(k,v)| (k.clone(),view(v))).collect() } }
fn same(a: &State, b: &State, what: &str) -> Res { if a == b { Ok(()) } else { Err(format!("{}: {:?}\ninstead of\n{:?}",what,a,b)) } }
fn procs(d: &Document) -> Result<Vec<Proc>,String> { let mut v = dump(d,&[])?.0.procs; for p in v.iter_mut() { sort_proc(p) } Ok(v) }
///What the written document says (the independent reader), and what the library reads back
fn cycle(d: Document, indent: usize, want: &State) -> Result<Document,String> {
    let x = xml_of(&d,indent)?; let r = conv::read_doc(x.as_bytes()).map_err(|e| format!("{}\n{}",e,x))?;
    let b = |m: &Meta| -> Block { (m.ty.clone(),m.src.clone(),m.fields.iter().cloned().collect()) };
    let said = State { id: r.id.clone(), main: b(&r.meta), subs: r.submeta.iter().map(|m| (m.id.clone(),b(m))).collect() };
    let mut w = want.clone(); if w.main.0.is_none() { w.main.0 = said.main.0.clone(); } //the type of the metadata may be spelled out
    same(&said,&w,"written metadata").map_err(|e| format!("{}\n{}",e,x))?;
    if r.meta.fields.len() != w.main.2.len() { return Err(format!("a metadata field is written more than once\n{}",x)); } for s in r.submeta.iter() { if s.fields.len() != w.subs[&s.id].2.len() { return Err(format!("a submetadata field is written more than once\n{}",x)); } }
    let p = procs(&d)?; let e = load(&x,&Props::bare()).map_err(|e| format!("{}\n{}",e,x))?; let mut s = state(&e); if want.main.0.is_none() { s.main.0 = None; }
    same(&s,want,"reloaded metadata").map_err(|e| format!("{}\n{}",e,x))?;
    if procs(&e)? != p { return Err(format!("processors differ after reloading\n{}",x)); } Ok(e)
}
fn check(c: &MetaCase, o: &mut Obs) -> Res {
    let mut m = State { id: c.id.clone(), ..Default::default() };
    let mut d = if c.new { o.label("built"); Document::new(&c.id,make_props(&Props::bare(),false)).map_err(|e| format!("{}",e))? } else {
        o.label("loaded"); let xml = write(c); m.main.0 = c.ty.clone(); m.main.1 = c.src.clone();
        for i in c.items.iter() { match i { Item::Field(k,v) => { m.main.2.insert(k.clone(),v.clone()); } Item::Sub(s) => { m.subs.insert(s.id.clone(),(s.ty.clone(),s.src.clone(),s.fields.iter().cloned().collect())); } _ => {} } }
        let d = if c.file { let p = scratch("c18"); std::fs::write(&p,&xml).map_err(|e| e.to_string())?; let d = Document::from_file(p.to_str().unwrap(),make_props(&Props::bare(),false)).map_err(|e| format!("{}",e)); std::fs::remove_file(&p).ok(); d } else { load(&xml,&Props::bare()) }.map_err(|e| format!("{}\n{}",e,xml))?;
        let mut s = state(&d); if c.ty.is_none() { s.main.0 = None; } same(&s,&m,"loaded metadata").map_err(|e| format!("{}\n{}",e,xml))?;
        let mut want = c.procs.clone(); for p in want.iter_mut() { sort_proc(p) } let got = procs(&d)?; let f = |p: &Vec<Proc>| { fn v(p: &Proc, o: &mut Vec<(String,Vec<Attr>)>) { o.push((p.id.clone(),p.meta.clone())); for s in p.subs.iter() { v(s,o) } } let mut o = vec![]; for q in p.iter() { v(q,&mut o) } o };
        if f(&want) != f(&got) { return Err(format!("metadata of the processors: {:?} instead of {:?}\n{}",f(&got),f(&want),xml)); }
        o.nontrivial(m.main.2.len()+m.subs.values().map(|s| s.2.len()).sum::<usize>() >= 2); if m.subs.len() >= 2 { o.label("several submetadata blocks"); } if c.items.iter().skip_while(|i| !matches!(i,Item::Sub(_))).any(|i| matches!(i,Item::Field(..))) { o.label("field after submetadata"); } if m.main.2.values().chain(m.subs.values().flat_map(|s| s.2.values())).any(|v| v.is_empty()) { o.label("empty value"); }
        if m.subs.values().any(|s| s.2.keys().any(|k| m.main.2.contains_key(k))) { o.label("same field in several blocks"); } d };
    for op in c.ops.iter() {
        let names: Vec<Option<String>> = std::iter::once(None).chain(m.subs.keys().cloned().map(Some)).collect();
        let name = |i: usize| names[i % names.len()].clone();
        macro_rules! on { ($i:expr,$f:expr,$g:expr) => { match name($i) { None => { $f(&mut m.main); $g(&mut d.metadata); } Some(n) => { $f(m.subs.get_mut(&n).unwrap()); $g(d.submetadata.get_mut(&n).ok_or_else(|| format!("submetadata block {:?} is gone",n))?); } } } }
        match op {
            Op::Put(i,k,v) => on!(*i,|b: &mut Block| { b.2.insert(k.clone(),v.clone()); },|b: &mut Metadata| { b.data.insert(k.clone(),v.clone()); }),
            Op::Drop(i,j) => { let k = match name(*i) { None => m.main.2.keys().nth(*j).cloned(), Some(n) => m.subs[&n].2.keys().nth(*j).cloned() }; if let Some(k) = k { on!(*i,|b: &mut Block| { b.2.remove(&k); },|b: &mut Metadata| { b.data.remove(&k); }) } }
            Op::Type(i,v) => on!(*i,|b: &mut Block| b.0 = v.clone(),|b: &mut Metadata| b.metadatatype = v.clone()),
            Op::Src(i,v) => on!(*i,|b: &mut Block| b.1 = v.clone(),|b: &mut Metadata| b.src = v.clone()),
            Op::Add(n) => { m.subs.entry(n.clone()).or_default(); d.submetadata.entry(n.clone()).or_default(); o.label("block added"); }
            Op::Remove(i) => if let Some(n) = name(*i) { m.subs.remove(&n); d.submetadata.remove(&n); }
            Op::Cycle(i) => { o.label("saved and loaded between edits"); d = cycle(d,*i,&m)?; m.main.0 = d.metadata.metadatatype.clone(); o.nontrivial(m.main.2.len() >= 2); }
        }
    }
    let d = cycle(d,0,&m)?; m.main.0 = d.metadata.metadatatype.clone(); cycle(d,4,&m)?; o.add(2); o.nontrivial(m.main.2.len()+m.subs.len() >= 2); Ok(())
}
pub fn c18() -> Prop { Prop { id: "C18", rule: "a case is a generated header (fields and submetadata blocks in any order among declarations and provenance, in a random spelling) loaded or a new document, followed by a history of edits of fields, types, sources and blocks with saves and loads in between; non-trivial: at least two fields or blocks; distinct by content", assumptions: &["field names are unique within a block","an unstated type of the metadata may be written out"],
    subs: vec![ sub("metadata",40000,600000,case,check) ] } }
