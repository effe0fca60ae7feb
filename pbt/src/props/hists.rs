//! The properties that are decided by histories of operations (with parsed documents where they say so too).
use crate::{doc::*,engine::*,gen,hist::*,model::*,dump::*,spec::*,xmlw,conv,props::io::*};
use folia::*;
use serde::{Serialize,Deserialize};
use std::collections::HashMap;

fn nothing(_: &World, _: Option<(&Op,bool)>, _: &mut Obs) -> Res { Ok(()) }
const RULE: &str = "a case is a history: a generated starting document (new or loaded) and a generated sequence of operations, performed on the library and on the reference model with the complete state compared after every operation; non-trivial: at least two operations, one of them accepted; distinct by content";
const ASSUME: &[&str] = &["the reference model (pbt/src/model.rs) states what each operation means","the state is compared through the library's public interface: tree, attributes, identifiers, declarations, vocabularies, processors"];

// ---------------------------------------------------------------------------------------------- C06
fn h06(g: &mut G) -> Hist { hist(g,&Profile { ops: vec![(5,"inline"),(4,"declare"),(2,"class"),(2,"add"),(1,"annotate"),(1,"span"),(1,"feature"),(1,"processor"),(1,"activate"),(1,"properties")], max: 20, ..Default::default() }) }
fn known_type(w: &World) -> Res {
    for (i,k) in w.keys.iter().enumerate() {
        let e = w.doc.get_element(*k).ok_or("element gone")?; let m = &w.m.els[i];
        match e.get_declaration() { None => if e.set().is_some() || e.class().is_some() { return Err(format!("{} has a set or class but no declaration",m.ty)); },
            Some(d) => { let expected = match annotationtype(m.ty) { Some(a) => Some(a), None => m.parent.and_then(|p| annotationtype(w.m.els[p].ty)) };
                if let Some(a) = expected { if m.parent.is_some() || m.ty != "Feature" { if at_name(d.annotationtype) != a && annotationtype(m.ty).is_some() { return Err(format!("{} refers to the declaration of {}",m.ty,at_name(d.annotationtype))); } } } } }
    }
    Ok(())
}
fn check06(h: &Hist, o: &mut Obs) -> Res {
    let mut types = HashMap::new();
    perform(h,o,&mut |w,op,o| {
        known_type(w)?;
        for d in w.m.decs.iter() { *types.entry(d.at.clone()).or_insert(0usize) += 1; if w.m.decs.iter().filter(|x| x.at == d.at).count() > 1 { o.label("several sets of a type") } }
        //declaring what is declared gives the same declaration: tried on the last one used
        if let Some((Op::Declare { at, set, .. },true)) = op { o.label(if set.is_some() {"declare with set"} else {"declare without set"}); let _ = at; }
        Ok(())
    }).map(|_| ())
}
///Declaring again what is declared changes nothing
fn check06_again(h: &Hist, o: &mut Obs) -> Res {
    let mut w = perform(h,o,&mut nothing)?; w.m.active = None; w.doc.active_processor = None;
    let before = dump(&w.doc,&roots(&w.doc))?.0; let decs: Vec<(String,Option<String>)> = w.m.decs.iter().map(|d| (d.at.clone(),d.set.clone())).collect();
    for (a,set) in decs.iter() {
        let k = w.doc.get_declaration_key_by_id(&Declaration::index_id(at(a),&set.as_deref())).ok_or("declaration not found")?;
        let l = w.doc.declare(at(a),set,&None,&None).map_err(|e| e.to_string())?; if l != k { return Err(format!("declaring {} with set {:?} again gives declaration {} instead of {}",a,set,l,k)); }
        if let Some(d) = w.m.default_dec(a) { let l = w.doc.declare(at(a),&None,&None,&None).map_err(|e| e.to_string())?; if w.doc.get_declaration(l).map(|x| x.set.clone()) != Some(w.m.decs[d].set.clone()) { return Err(format!("declaring {} without set does not give its only declaration",a)); } }
    }
    o.add(decs.len() as u64); expect(&dump(&w.doc,&roots(&w.doc))?.0,&before,"after declaring everything again")
}
///More classes than fit in sixteen bits: each annotation keeps its own
#[derive(Serialize,Deserialize)] pub struct Classes { n: usize, parsed: bool, feature: bool }
fn classes(g: &mut G) -> Classes { Classes { n: 65_500+g.below(2000), parsed: g.index % 2 == 0, feature: g.index % 4 >= 2 } }
fn check_classes(c: &Classes, o: &mut Obs) -> Res {
    o.nontrivial(true); let name = |i: usize| format!("c{}",i); let d;
    if c.parsed { let b: String = (0..c.n).map(|i| if c.feature { format!("<pos class=\"x\"><feat subset=\"s\" class=\"{}\"/></pos>",name(i)) } else { format!("<pos class=\"{}\"/>",name(i)) }).collect(); d = load(&format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" version=\"2.1.0\" xml:id=\"d\"><metadata><annotations><pos-annotation set=\"a\"/><token-annotation/></annotations></metadata><text xml:id=\"t\"><w xml:id=\"w\">{}</w></text></FoLiA>",b),&Props::bare())?; }
    else { let mut doc = Document::new("d",make_props(&Props::bare(),false)).map_err(|e| e.to_string())?; let w = doc.add_element_to(0,ElementData::new(ElementType::Word)).map_err(|e| e.to_string())?;
        for i in 0..c.n { let e = ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Set("a".into())); let e = if c.feature { e.with_attrib(Attribute::Class("x".into())).add_element(ElementData::new(ElementType::Feature).with_attrib(Attribute::Subset("s".into())).with_attrib(Attribute::Class(name(i)))) } else { e.with_attrib(Attribute::Class(name(i))) }; doc.add_element_to(w,e).map_err(|e| format!("annotation {}: {}",i,e))?; } d = doc; }
    let mut i = 0; for e in d.get_element(0).unwrap().get_elements(ElementType::PosAnnotation,Cmp::Is("a".into()),Recursion::Always) { let got = if c.feature { e.get_feature(Cmp::Is("s".into())).and_then(|f| f.class().map(|s| s.to_string())) } else { e.class().map(|s| s.to_string()) }; if got != Some(name(i)) { return Err(format!("annotation {} of {} has class {:?}",i,c.n,got)); } i += 1; }
    if i != c.n { return Err(format!("{} annotations of {} are found",i,c.n)); }
    let dec = d.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::POS,&Some("a"))).ok_or("the declaration is not found")?; let l = d.get_declaration(dec).ok_or("no declaration")?;
    for i in (0..c.n).step_by(101).chain(c.n-3..c.n) { let n = name(i); if c.feature { match l.subclass_key(&n) { Some(k) if l.get_subclass(k) == Some(n.as_str()) => {} x => return Err(format!("the class {} of a feature has key {:?}",n,x)) } }
        else { match d.class_key(dec,&n) { Ok(k) if l.get_class(k) == Some(n.as_str()) && l.class_key(&n) == Some(k) => {} x => return Err(format!("class {} has key {:?}",n,x.ok())) } } }
    if d.class_key(dec,"none").is_ok() { return Err("a class that was never used has a key".into()); } Ok(())
}
///Without automatic declaration: what is not declared is refused, everything else is as it is with it
#[derive(Serialize,Deserialize)] struct Strict { doc: Doc, props: Props }
fn strict(g: &mut G) -> Strict {
    let o = gen::Opts { loose: g.chance(1,2), ids: 3, firm_features: true, plain: true, ..Default::default() }; let s = g.size; g.size = 4+s/3; let mut doc = gen::doc(g,o); g.size = s;
    let mut p = props(g); p.manual = true;
    //mostly everything is declared but one or none
    if let Ok(m) = Model::load(&doc,&Props { manual: false, ..p.clone() }) { if g.chance(3,4) { for d in m.decs.iter() { if !doc.decs.iter().any(|x| x.at == d.at && x.set == d.set) { doc.decs.push(Dec { at: d.at.clone(), set: d.set.clone(), ..Default::default() }); } }
        if !doc.decs.is_empty() && g.chance(1,2) { let i = g.below(doc.decs.len()); doc.decs.remove(i); } } }
    Strict { doc, props: p }
}
fn check_strict(c: &Strict, o: &mut Obs) -> Res {
    let mut props = c.props.clone(); let free = Model::load(&c.doc,&Props { manual: false, ..props.clone() })?; props.manual = true;
    let m = Model::load(&c.doc,&props); let d = load(&xmlw::plain(&c.doc),&props); o.nontrivial(!free.decs.is_empty() && free.els.len() > 2); o.label(if m.is_ok() { "everything declared" } else { "something not declared" });
    match (m,d) {
        (Err(e),Ok(_)) => Err(format!("accepted, but should be refused ({})",e)), (Ok(_),Err(e)) => Err(format!("refused ({}), but everything is declared",e)), (Err(_),Err(_)) => Ok(()),
        (Ok(m),Ok(d)) => expect(&body(&d)?,&model_dump(&m),"loaded document"),
    }
}
pub fn c06() -> Prop { Prop { id: "C06", rule: RULE, assumptions: ASSUME, subs: vec![sub("histories",30000,600000,h06,check06), sub("again",6000,100000,h06,check06_again), sub("undeclared",8000,200000,strict,check_strict), sub("loaded",12000,250000,any_doc,check_parse), sub("saved",6000,100000,firm_doc,check_roundtrip), sub("many classes",4,40,classes,check_classes)] } }

// ---------------------------------------------------------------------------------------------- C07
fn h07(g: &mut G) -> Hist { hist(g,&Profile { ops: vec![(6,"inline"),(3,"processor"),(3,"subprocessor"),(2,"attach processor"),(1,"provenance"),(4,"activate"),(2,"declare"),(1,"span"),(1,"add"),(1,"properties")], max: 20, ..Default::default() }) }
fn h07_firm(g: &mut G) -> Hist { hist(g,&Profile { ops: vec![(3,"inline"),(4,"processor"),(5,"subprocessor"),(4,"attach processor"),(2,"activate"),(1,"declare"),(1,"add")], max: 14, firm: true, bad: 0, ..Default::default() }) }
fn check07(h: &Hist, o: &mut Obs) -> Res {
    perform(h,o,&mut |w,_,o| {
        for (i,k) in w.keys.iter().enumerate() {
            let e = w.doc.get_element(*k).ok_or("element gone")?; let m = &w.m.els[i];
            match m.proc {
                Some(p) => { let q = &w.m.procs[p].p; o.label("attributed"); if w.m.procs[p].parent.is_some() { o.label("attributed to a subprocessor") }
                    if e.annotator() != Some(q.name.as_str()) || e.annotatortype().map(ptype) != Some(if q.ty.is_empty() {"auto"} else {&q.ty}) { return Err(format!("{}: annotator {:?} ({:?}) instead of {} ({})",m.ty,e.annotator(),e.annotatortype().map(ptype),q.name,q.ty)); }
                    if let Some(d) = e.get_declaration() { if !d.processors.contains(&w.procs[p]) { return Err(format!("{} is attributed to {}, which its declaration does not list",m.ty,q.id)); } } }
                None => { if e.annotator() != w.m.attr(i,"ANNOTATOR") || e.annotatortype().map(ptype) != w.m.attr(i,"ANNOTATORTYPE") { return Err(format!("{}: annotator {:?} ({:?}), attributes {:?}",m.ty,e.annotator(),e.annotatortype().map(ptype),m.attrs)); } }
            }
        }
        //what serialising looks up: id to key to processor
        if w.doc.get_processor_by_id("no such processor").is_some() || w.doc.get_processor(30_000).is_some() { return Err("a processor that was never added is found".into()); }
        Ok(())
    }).map(|_| ())
}
///Provenance only: saved and loaded
fn provdoc(g: &mut G) -> DocCase { let mut n = 0; let mut d = Doc { id: "d".into(), body: El::new("Text"), ..Default::default() }; while d.procs.len() < 5 && g.chance(3,4) { d.procs.push(gen::proc(g,&mut n,false,0)); }
    let ps: Vec<String> = d.all_procs().iter().map(|p| p.id.clone()).collect();
    for a in ["TOKEN","POS","SENTENCE"] { for s in [Some("set-a"),Some("set-b"),None] { if g.chance(1,3) { let mut v = vec![]; while !ps.is_empty() && g.chance(1,2) { let p = g.pick(&ps).clone(); if !v.contains(&p) { v.push(p) } } d.decs.push(Dec { at: a.into(), set: s.map(|s| s.into()), annotators: v, ..Default::default() }); } } }
    let mut s = El::new("Sentence"); while s.data.len() < 5 && g.chance(3,4) { let mut w = El::new("Word"); for e in [&mut w] { if g.chance(1,2) { e.set_attr("SET",*g.pick(&["set-a","set-b"])); } if !ps.is_empty() && g.chance(1,2) { e.set_attr("PROCESSOR",&g.pick(&ps).clone()); } } if g.chance(1,2) { let mut p = El::new("PosAnnotation").a("CLASS","N"); if !ps.is_empty() && g.chance(1,2) { p.set_attr("PROCESSOR",&g.pick(&ps).clone()); } w = w.c(p); } s = s.c(w); }
    d.body = d.body.c(s); let mut indent = vec![]; while indent.len() < 2 && g.chance(1,2) { indent.push(g.below(5)); } DocCase { doc: d, bare: g.chance(1,2), loose: false, indent } }
fn nt_prov(c: &DocCase, o: &mut Obs) { o.nontrivial(!c.doc.procs.is_empty()); if c.doc.procs.iter().any(|p| p.subs.iter().any(|s| !s.subs.is_empty())) { o.label("deep chain") } }
fn check07_load(c: &DocCase, o: &mut Obs) -> Res { let r = check_parse(c,&mut Obs::default()); nt_prov(c,o); r }
fn check07_save(c: &DocCase, o: &mut Obs) -> Res { let r = check_roundtrip(c,&mut Obs::default()); nt_prov(c,o); r }
///Processors as the library fills them in: nothing that was given changes, and no two have the same ID
#[derive(Serialize,Deserialize)] pub struct Filled { p: Proc, name: String }
fn filled(g: &mut G) -> Filled { let mut n = 0; let p = gen::proc(g,&mut n,false,2); Filled { p, name: gen::value(g) } }
fn check_filled(c: &Filled, o: &mut Obs) -> Res {
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(0); let t0 = now();
    let p = make_proc(&c.p); let q = p.clone().autofill(); let t1 = now();
    let kept = |a: &Processor, b: &Processor| a.id == b.id && a.name == b.name && a.processortype == b.processortype && a.version == b.version && a.document_version == b.document_version && a.enddatetime == b.enddatetime && a.src == b.src && a.format == b.format && a.resourcelink == b.resourcelink && a.metadata.data == b.metadata.data && a.parent == b.parent && a.processors == b.processors && a.pending_processors.borrow().len()+1 == b.pending_processors.borrow().len() && a.pending_processors.borrow().iter().zip(b.pending_processors.borrow().iter()).all(|(x,y)| x.id == y.id) && b.pending_processors.borrow().last().map_or(false,|x| x.name == "folia-rust" && x.processortype == ProcessorType::Generator);
    if !kept(&p,&q) { return Err("autofill() changes what was given".into()); }
    let env = |k: &str| std::env::var(k).unwrap_or_default(); let args: Vec<String> = std::env::args().collect();
    if q.host != env("HOST") || q.user != env("USER") || q.command != args.join(" ") || q.folia_version != FOLIAVERSION { return Err(format!("autofill() gives host {:?}, user {:?}, command {:?}, FoLiA version {:?}",q.host,q.user,q.command,q.folia_version)); }
    match q.begindatetime.map(|d| d.timestamp()) { Some(t) if t >= t0 && t <= t1 => {}, t => return Err(format!("autofill() gives the time {:?}",t)) }
    let ids: std::collections::HashSet<String> = (0..20).map(|i| if i % 2 == 0 { Processor::new(c.name.clone()) } else { Processor::this_library() }.id).collect(); if ids.len() != 20 { return Err(format!("twenty new processors have only {} different IDs",ids.len())); }
    let (a,b) = (Processor::new(c.name.clone()),Processor::new(c.name.clone())); let (x,y) = (Processor::this_library(),Processor::this_library());
    if a.id == b.id || x.id == y.id || a.id.is_empty() { return Err(format!("two processors with the same ID: {:?} {:?} {:?} {:?}",a.id,b.id,x.id,y.id)); }
    if a.name != c.name || a.processortype != ProcessorType::Auto || x.processortype != ProcessorType::Generator || x.folia_version != FOLIAVERSION || x.name != "folia-rust" || x.version.is_empty() { return Err("a new processor is not what it is said to be".into()); }
    for f in [&a.version,&a.folia_version,&a.document_version,&a.command,&a.host,&a.user,&a.src,&a.format,&a.resourcelink] { if !f.is_empty() { return Err(format!("a new processor has a field {:?}",f)); } }
    if a.begindatetime.is_some() || a.enddatetime.is_some() || a.parent.is_some() || !a.processors.is_empty() || !a.metadata.data.is_empty() { return Err("a new processor is not empty".into()); }
    o.nontrivial(!c.p.fields.is_empty()); Ok(())
}
pub fn c07() -> Prop { Prop { id: "C07", rule: RULE, assumptions: ASSUME, subs: vec![sub("histories",30000,600000,h07,check07), sub("loaded",10000,250000,provdoc,check07_load), sub("saved",10000,250000,provdoc,check07_save), sub("documents",4000,100000,firm_doc,check_roundtrip), sub("written",6000,150000,h07_firm,check_built), sub("filled in",1000,20000,filled,check_filled)] } }

// ---------------------------------------------------------------------------------------------- C11
fn h11(g: &mut G) -> Hist { let moving = if g.chance(1,2) {2} else {0}; hist(g,&Profile { ops: vec![(6,"span"),(3,"add"),(3,"annotate"),(1+moving/2,"orphan"),(1,"declare"),(2*moving,"move"),(moving,"detach")], max: if moving > 0 {18} else {12}, load: 5, wrong: 2, ..Default::default() }) }
///Both directions, from the tree the model holds and the library's public interface
pub fn spans_agree(doc: &Document, m: &Model, keys: &[ElementKey], o: &mut Obs) -> Res {
    let mut covered: HashMap<K,Vec<K>> = HashMap::new(); //word -> spans, in the order the references were made
    for (k,e) in m.els.iter().enumerate() { if e.ty != "WordReference" || !m.ancestors(k).into_iter().any(|a| in_group("Span",m.els[a].ty)) { continue; }
        let id = m.attr(k,"IDREF").ok_or("word reference without reference")?; let t = *m.ids.get(id).ok_or("reference to nothing")?;
        let we = doc.get_element(keys[k]).ok_or("element gone")?;
        if we.resolve().and_then(|e| e.key()) != Some(keys[t]) { return Err(format!("the reference to {} resolves to {:?}",id,we.resolve().map(|e| e.key()))); }
        if let Some(s) = m.ancestors(k).into_iter().find(|a| in_group("Span",m.els[*a].ty)) { covered.entry(t).or_default().push(s); } }
    for (k,e) in m.els.iter().enumerate() {
        let spans = covered.get(&k).cloned().unwrap_or_default();
        let el = doc.get_element(keys[k]).ok_or("element gone")?;
        if !spans.is_empty() { o.label("covered words"); if spans.len() > 1 { o.label("words covered by several references") } }
        if !spans.is_empty() || ts(e.ty).wrefable {
            for (a,s) in spec().annotationtypes.iter() { if !in_group("Span",&s.elementtype) { continue; }
                let found: Vec<ElementKey> = el.get_annotations(at(a),Cmp::Any,Recursion::No).filter_map(|x| x.key()).collect();
                let mut f2 = found.clone(); f2.sort(); f2.dedup(); if f2.len() != found.len() { return Err(format!("{} #{:?}: a span is found twice",e.ty,m.attr(k,"ID"))); }
                let mut ex: Vec<ElementKey> = spans.iter().filter(|x| m.els[**x].ty == s.elementtype).map(|x| keys[*x]).collect();
                for c in m.children(k) { if m.els[c].ty == s.elementtype { ex.push(keys[c]); } } ex.sort(); ex.dedup();
                if f2 != ex { return Err(format!("{} #{:?} is covered by {} spans of type {} but {} are found from it",e.ty,m.attr(k,"ID"),ex.len(),s.elementtype,f2.len())); } }
        }
    }
    Ok(())
}
fn check11(h: &Hist, o: &mut Obs) -> Res { let w = perform(h,o,&mut nothing)?; spans_agree(&w.doc,&w.m,&w.keys,o) }
fn spandoc(g: &mut G) -> DocCase { let o = gen::Opts { ids: 4, wordy: true, plain: g.chance(1,2), ..Default::default() }; let doc = gen::doc(g,o); DocCase { doc, bare: true, loose: false, indent: vec![] } }
fn keys_of(d: &Document, m: &Model) -> Result<Vec<ElementKey>,String> { let (dl,kl) = dump(d,&roots(d))?; let (dm,km) = dump_model(m,&m.roots()); expect(&dl,&dm,"loaded document")?; let mut keys = vec![u32::MAX; m.els.len()]; for (l,x) in kl.iter().zip(km.iter()) { keys[*x] = *l; } Ok(keys) }
fn check11_load(c: &DocCase, o: &mut Obs) -> Res {
    let m = Model::load(&c.doc,&Props::bare())?; let d = load(&xmlw::plain(&c.doc),&Props::bare())?; let keys = keys_of(&d,&m)?;
    let n = m.els.iter().filter(|e| e.ty == "WordReference").count(); o.nontrivial(n > 0); if n > 3 { o.label("more than three references") }
    spans_agree(&d,&m,&keys,o)
}
///A reference to nothing is an error
#[derive(Serialize,Deserialize)] pub struct Dangling { doc: Doc, at: usize, id: String }
fn dangling(g: &mut G) -> Dangling { Dangling { doc: spandoc(g).doc, at: g.below(1000), id: g.pick(&["nowhere","","e.w","e.w.","E.W.1"]).to_string() } }
fn check11_dangling(c: &Dangling, o: &mut Obs) -> Res {
    let mut d = c.doc.clone(); let mut n = 0; d.body.visit(&mut |e| if e.ty == "WordReference" { n += 1 }); if n == 0 { return Ok(()); }
    let mut i = 0; d.body.visit_mut(&mut |e| if e.ty == "WordReference" { if i == c.at % n { e.set_attr("IDREF",&c.id) } i += 1; });
    let mut taken = false; d.body.visit(&mut |e| if e.attr("ID") == Some(c.id.as_str()) { taken = true }); if taken { return Ok(()); }
    o.nontrivial(true); o.label(if c.at % n == 0 {"first reference"} else {"later reference"});
    match load(&xmlw::plain(&d),&Props::bare()) { Err(_) => Ok(()), Ok(_) => Err(format!("a reference to {:?}, which does not exist, is accepted",c.id)) }
}
pub fn c11() -> Prop { Prop { id: "C11", rule: RULE, assumptions: ASSUME, subs: vec![sub("histories",16000,300000,h11,check11), sub("loaded",12000,300000,spandoc,check11_load), sub("dangling",6000,100000,dangling,check11_dangling)] } }

// ---------------------------------------------------------------------------------------------- C12
fn h12(g: &mut G) -> Hist { let p = g.chance(1,2); hist(g,&Profile { ops: vec![(12,"span"),(2,"add"),(1,"annotate"),(1,"declare"),(1,"attach"),(1,"processor"),(1,"activate")], max: 16, load: 5, plain: p, ..Default::default() }) }
fn check12(h: &Hist, o: &mut Obs) -> Res {
    let mut before = 0;
    perform(h,o,&mut |w,op,o| {
        let now = w.m.els.len();
        if let Some((Op::AnnotateSpan { el } | Op::Annotate { el, .. },ok)) = op { if in_group("Span",&el.ty) {
            let n = now-before; let size = el.count();
            if ok { o.label(if n == size {"layer reused (or none needed)"} else {"layer created"}); if n != size && n != size+1 { return Err(format!("{} elements were added for a span of {} elements",n,size)); } }
            else if n != 0 { return Err("a refused span leaves elements behind".into()); }
        } }
        //the layer of every element by type and set
        let k = (op.is_some() as usize*31+now*7) % w.m.els.len(); let homes = w.m.ancestors(k).into_iter().chain([k]);
        for h in homes { for lt in ["EntitiesLayer","ChunkingLayer","DependenciesLayer","SemanticRolesLayer","SyntaxLayer"] { let Some(a) = annotationtype(lt) else { continue };
            for set in w.m.decs.iter().filter(|d| d.at == a).map(|d| d.set.as_deref()).chain([Some("nowhere")]) {
                let want = match set { Some(_) => w.m.layer(h,lt,set), None => w.m.els[h].data.iter().filter_map(|x| match x { MData::El(c)|MData::Span(c) => Some(*c), _ => None }).find(|c| w.m.els[*c].ty == lt && w.m.set(*c).is_none()) }.map(|k| w.key(k));
                let got = w.doc.get_layer_key(w.key(h),at(a),set).map_err(|e| format!("no answer to which layer of {} with set {:?} is under {}: {}",a,set,w.m.els[h].ty,e))?;
                if want.is_some() { o.label("layer found"); }
                if got != want { return Err(format!("the layer of {} with set {:?} under {} (key {}) is {:?} instead of {:?}",a,set,w.m.els[h].ty,w.key(h),got,want)); }
        } } }
        if let Some((Op::AnnotateSpan { el } | Op::Annotate { el, .. },true)) = op { if in_group("Span",&el.ty) { let (got,want) = (w.doc.get_span_keys(&make(el)),w.m.span_keys(el).into_iter().map(|k| w.key(k)).collect::<Vec<_>>()); if got != want { return Err(format!("the words of the new span are {:?} instead of {:?}",got,want)); } } }
        before = now; Ok(())
    }).map(|_| ())
}
pub fn c12() -> Prop { Prop { id: "C12", rule: RULE, assumptions: ASSUME, subs: vec![sub("histories",30000,600000,h12,check12)] } }

// ---------------------------------------------------------------------------------------------- C14
fn h14(g: &mut G) -> Hist { let loose = g.chance(1,2); hist(g,&Profile { ops: vec![(5,"attach"),(3,"detach"),(4,"add"),(1,"annotate"),(2,"orphan"),(1,"span")], bad: 2, loose, max: 24, load: 3, ..Default::default() }) }
fn any_hist(g: &mut G) -> Hist { let loose = g.chance(1,3); hist(g,&Profile { loose, ..Default::default() }) }
fn check_any(h: &Hist, o: &mut Obs) -> Res { perform(h,o,&mut nothing).map(|_| ()) }
pub fn c14() -> Prop { Prop { id: "C14", rule: RULE, assumptions: ASSUME, subs: vec![sub("edits",24000,500000,h14,check_any), sub("any",12000,300000,any_hist,check_any)] } }

// ---------------------------------------------------------------------------------------------- C15
#[derive(Serialize,Deserialize)] pub struct Pair { parent: String, child: String, set: bool, body: bool, wrong: bool }
fn pair(g: &mut G) -> Pair {
    let n = gen::alltypes().len(); let i = g.index % (n*n*2);
    Pair { parent: gen::alltypes()[(i/2)/n].into(), child: gen::alltypes()[(i/2)%n].into(), set: i % 2 == 0, body: false, wrong: false }
}
fn check15(c: &Pair, o: &mut Obs) -> Res {
    o.nontrivial(true);
    let mut w = World::start(&Start::New { id: "d".into(), speech: false, props: Props::bare() })?;
    w.apply(&Op::AddTo { to: 0, el: El::new("Sentence").c(El::new("Word").a("ID","w1")).c(El::new("Word").a("ID","w2")) })?;
    let mut p = El::new(&c.parent).a("ID","p"); if c.parent == "WordReference" { p.set_attr("IDREF","w1"); }
    //word references only occur in spans
    let holder = if c.parent == "WordReference" { let k = w.m.els.len(); w.apply(&Op::AddTo { to: 1, el: El::new("Entity") })?; k } else { 1 };
    if c.parent == "Feature" { p.attrs.clear(); }
    let k = w.m.els.len();
    if !w.apply(&Op::AddTo { to: holder, el: p })? { return Err("preparation failed".into()); }
    let mut e = El::new(&c.child); if c.set && annotationtype(&c.child).is_some() { e = e.a("SET","s").a("CLASS","c"); }
    if in_group("Span",&c.child) { e = e.c(El::new("WordReference").a("IDREF","w1")); } if c.child == "WordReference" { e = e.a("IDREF","w2"); }
    let spec_allows = accepts(&c.parent,&c.child);
    let addable = w.doc.check_element_addable(w.key(k),&make(&e)).is_ok();
    if addable != spec_allows { return Err(format!("{} under {} is {} by the validating interface, {} by the specification",c.child,c.parent,if addable {"allowed"} else {"refused"},if spec_allows {"allowed"} else {"not allowed"})); }
    let ok = w.apply(&Op::Annotate { to: k, el: e })?;
    let through_layer = in_group("Span",&c.child) && (in_group("Structure",&c.parent) || ts(&c.parent).wrefable);
    o.label(if ok {"accepted"} else {"refused"}); if through_layer { o.label("through a layer") }
    if ok && !spec_allows && !through_layer { return Err("accepted against the specification".into()); }
    Ok(())
}
///The types that do not occur in documents by themselves (feature types, ...) too, without the reference model
fn pair_all(g: &mut G) -> Pair {
    let n = ALL_ELEMENTTYPE.len(); let i = g.index % (n*n);
    Pair { parent: ALL_ELEMENTTYPE[i/n].0.into(), child: ALL_ELEMENTTYPE[i%n].0.into(), set: false, body: false, wrong: false }
}
fn check15_all(c: &Pair, o: &mut Obs) -> Res {
    if in_group("Span",&c.child) || c.child == "WordReference" || c.parent == "WordReference" { o.label("in the other check"); return Ok(()); }
    o.nontrivial(true); let e = |e: FoliaError| e.to_string();
    let mut d = Document::new("d",make_props(&Props::bare(),false)).map_err(e)?; let k = d.add_element_to(0,ElementData::new(ElementType::Sentence)).map_err(e)?;
    //an element with that type as parent; annotated only if its type takes features
    let p = match d.add_element_to(k,ElementData::new(et(&c.parent))) { Ok(p) => p, Err(_) => { o.label("no such parent"); return Ok(()); } };
    let x = ElementData::new(et(&c.child)); let allowed = accepts(&c.parent,&c.child);
    if d.check_element_addable(p,&x).is_ok() != allowed { return Err(format!("{} under {} is {} by the validating interface, {} by the specification",c.child,c.parent,if allowed {"refused"} else {"allowed"},if allowed {"allowed"} else {"not allowed"})); }
    let before = dump(&d,&roots(&d))?.0; let n = d.get_element(p).ok_or("element gone")?.select(Selector::elements(),Recursion::No).count();
    match d.annotate(p,x) {
        Ok(x) => { o.label("accepted"); if !allowed { return Err(format!("{} under {} is accepted against the specification",c.child,c.parent)); }
            let v: Vec<ElementKey> = d.get_element(p).ok_or("element gone")?.select(Selector::elements(),Recursion::No).filter_map(|e| e.key()).collect(); if v.len() != n+1 || v.last() != Some(&x) { return Err(format!("{} under {} is not its last child",c.child,c.parent)); } Ok(()) }
        Err(m) => { o.label("refused"); if allowed && c.child != "Feature" { return Err(format!("{} under {} is refused: {}",c.child,c.parent,m)); } expect(&dump(&d,&roots(&d))?.0,&before,"after a refused annotation") }
    }
}
fn h15(g: &mut G) -> Hist { hist(g,&Profile { ops: vec![(10,"annotate"),(3,"span"),(1,"add"),(2,"anything")], max: 16, load: 4, loose: true, ..Default::default() }) }
pub fn c15() -> Prop { let n = gen::alltypes().len(); Prop { id: "C15", rule: "pairs: every (parent type, child type) pair of the vocabulary, exhaustively, with and without a set; histories: generated sequences of annotations, compared with the reference model; all pairs and all histories with an accepted operation count as non-trivial", assumptions: ASSUME, subs: vec![sub("pairs",n*n*2,n*n*2,pair,check15), sub("all types",ALL_ELEMENTTYPE.len()*ALL_ELEMENTTYPE.len(),ALL_ELEMENTTYPE.len()*ALL_ELEMENTTYPE.len(),pair_all,check15_all), sub("histories",12000,400000,h15,check_any)] } }

// ---------------------------------------------------------------------------------------------- C16
fn h16(g: &mut G) -> Hist { let plain = g.chance(1,3); hist(g,&Profile { ops: vec![(6,"add"),(3,"annotate"),(3,"span"),(2,"orphan"),(3,"attach"),(2,"detach")], wrong: 5, load: 4, plain, max: 18, ..Default::default() }) }
fn check16(h: &Hist, o: &mut Obs) -> Res {
    perform(h,o,&mut |w,_,o| {
        let mut n = 0;
        for id in w.m.ids.keys() { for v in [format!("{}x",id),id.to_uppercase(),id.trim().to_string(),format!(" {}",id),id.chars().skip(1).collect(),String::new(),format!("#{}",id)] {
            n += 1; if w.m.ids.contains_key(&v) { continue; }
            if w.doc.get_element_key_by_id(&v).is_some() || w.doc.get_element_by_id(&v).is_some() { return Err(format!("{:?} was never given but an element is found",v)); } } }
        o.add(n); resolved(&w.doc,&w.m,&w.keys)
    }).map(|_| ())
}
///Elements that refer to another one by its identifier, of whichever type they are
fn resolved(d: &Document, m: &Model, keys: &[ElementKey]) -> Res { for k in 0..m.els.len() { let e = d.get_element(keys[k]).ok_or("element gone")?; let (got,want) = (e.resolve().and_then(|e| e.key()),m.resolve(k).map(|t| keys[t])); if got != want { return Err(format!("the reference {:?} of element {} ({}) resolves to {:?} instead of {:?}",m.attr(k,"IDREF"),keys[k],m.els[k].ty,got,want)); } } Ok(()) }
#[derive(Serialize,Deserialize)] pub struct Dup { doc: Doc, a: usize, b: usize }
fn dup(g: &mut G) -> Dup { Dup { doc: any_doc(g).doc, a: g.below(1000), b: g.below(1000) } }
fn check16_load(c: &Dup, o: &mut Obs) -> Res {
    let mut d = c.doc.clone(); let mut ids = vec![]; d.body.visit(&mut |e| if let Some(i) = e.attr("ID") { ids.push(i.to_string()) }); if ids.is_empty() { return Ok(()); }
    let id = ids[c.a % ids.len()].clone(); let n = d.body.count(); let mut i = 0; let mut done = false; let b = c.b % n;
    d.body.visit_mut(&mut |e| { if i >= b && !done && e.attr("ID") != Some(id.as_str()) { e.set_attr("ID",&id); done = true; } i += 1; }); if !done { return Ok(()); }
    o.nontrivial(true);
    match load(&xmlw::plain(&d),&Props::bare()) { Err(_) => Ok(()), Ok(_) => Err(format!("two elements with identifier {:?} are accepted",id)) }
}
fn check16_ids(c: &DocCase, o: &mut Obs) -> Res {
    let d = load(&xmlw::plain(&c.doc),&Props::bare())?; let m = Model::load(&c.doc,&Props::bare())?; let keys = keys_of(&d,&m)?;
    o.nontrivial(m.ids.len() > 2);
    for (id,k) in m.ids.iter() { match d.get_element_by_id(id) { Some(e) if e.key() == Some(keys[*k]) && e.id() == Some(id) => {}, e => return Err(format!("identifier {:?} gives {:?}",id,e.map(|e| e.key()))) } }
    resolved(&d,&m,&keys)
}
pub fn c16() -> Prop { Prop { id: "C16", rule: RULE, assumptions: ASSUME, subs: vec![sub("histories",20000,400000,h16,check16), sub("duplicates",8000,150000,dup,check16_load), sub("loaded",6000,150000,any_doc,check16_ids)] } }

// ---------------------------------------------------------------------------------------------- C20
fn h20(g: &mut G) -> Hist { hist(g,&Profile { ops: vec![(6,"inline"),(6,"feature"),(2,"declare"),(2,"add"),(1,"annotate"),(1,"span"),(1,"class"),(1,"attach"),(2,"vocabulary")], max: 18, ..Default::default() }) }
fn features_agree(doc: &Document, m: &Model, keys: &[ElementKey], o: &mut Obs) -> Res {
    for (k,e) in m.els.iter().enumerate() {
        let el = doc.get_element(keys[k]).ok_or("element gone")?;
        let fs: Vec<K> = m.children(k).filter(|c| m.els[*c].ty == "Feature").collect();
        if fs.len() > 1 { o.label("several features") } else if fs.len() == 1 { o.label("one feature") }
        let mut subsets: Vec<Cmp<String>> = vec![Cmp::Any,Cmp::Some,Cmp::None,Cmp::Is("no such subset".into())]; for d in m.decs.iter() { for s in d.subsets.iter() { let c = Cmp::Is(s.clone()); if !subsets.contains(&c) { subsets.push(c); } } }
        for s in subsets {
            let ex: Vec<K> = fs.iter().cloned().filter(|f| s.matches(m.els[*f].subset.as_ref())).collect();
            let found: Vec<(Option<ElementKey>,Option<String>,Option<String>)> = el.get_features(s.clone()).map(|f| (f.key(),f.subset().map(|x| x.to_string()),f.class().map(|x| x.to_string()))).collect();
            let expected: Vec<_> = ex.iter().map(|f| (Some(keys[*f]),m.els[*f].subset.clone(),m.els[*f].class.clone())).collect();
            if found != expected { return Err(format!("{}: features of subset {:?} are {:?} instead of {:?}",e.ty,s,found,expected)); }
            let first = el.get_feature(s.clone()).map(|f| f.key()); if first != expected.get(0).map(|x| x.0) { return Err(format!("{}: the feature of subset {:?} is {:?}",e.ty,s,first)); }
        }
    }
    Ok(())
}
fn check20(h: &Hist, o: &mut Obs) -> Res { let w = perform(h,o,&mut nothing)?; features_agree(&w.doc,&w.m,&w.keys,o) }
fn featdoc(g: &mut G) -> DocCase {
    let mut c = firm_doc(g);
    //annotations with features, by element and by shortcut
    let ps = ["PosAnnotation","SenseAnnotation","LemmaAnnotation","Event","Sentence","Dependency","Note"]; let sets = ["set-a","set-b","s/e/t"];
    let mut s = El::new("Sentence"); while s.data.len() < 6 && g.chance(4,5) { let ty = *g.pick(&ps); let mut e = El::new(ty).a("CLASS",*g.pick(gen::CLASSES)); if g.chance(1,2) { e = e.a("SET",*g.pick(&sets)); }
        let f = gen::featured(ty); while !f.is_empty() && g.chance(1,2) { let k = format!("FEAT:{}",g.pick(&f)); if e.attr(&k).is_none() { let v = gen::nonempty(g); e = e.a(&k,&v); } }
        while e.data.len() < 4 && g.chance(1,2) { let mut x = El::new("Feature").a("SUBSET",*g.pick(&["sub1","sub2","a&b","level","Level","sub1 ","SUB2","sub"])); if !g.chance(1,8) { x = x.a("CLASS",*g.pick(gen::CLASSES)); } if g.chance(1,4) { x = x.t("text"); } e = e.c(x); if g.chance(1,5) { e = e.c(El::new("Comment").t("x")); } }
        s = s.c(e); }
    c.doc.body = c.doc.body.c(s); c }
fn check20_load(c: &DocCase, o: &mut Obs) -> Res {
    let m = Model::load(&c.doc,&Props::bare())?; let d = load(&xmlw::plain(&c.doc),&Props::bare())?; let keys = keys_of(&d,&m)?;
    let n = m.els.iter().filter(|e| e.ty == "Feature").count(); o.nontrivial(n > 0); if n > 5 { o.label("more than five features") }
    features_agree(&d,&m,&keys,o)
}
///A vocabulary that is (nearly) full: every feature is refused, or kept with its subset and class
#[derive(Serialize,Deserialize)] pub struct Many { free: usize, n: usize, parsed: bool }
fn many(g: &mut G) -> Many { Many { free: g.below(4), n: g.range(1,6), parsed: g.index % 2 == 1 } }
fn check_many(c: &Many, o: &mut Obs) -> Res {
    o.nontrivial(true); let n = 65536-c.free; let body: String = (0..n).map(|i| format!("<feat subset=\"s{}\" class=\"c\"/>",i)).collect();
    let late: String = if c.parsed { (0..c.n).map(|i| format!("<feat subset=\"late{}\" class=\"d{}\"/>",i,i)).collect() } else { String::new() };
    let xml = format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" version=\"2.1.0\" xml:id=\"d\"><metadata><annotations><pos-annotation set=\"a\"/><token-annotation/></annotations></metadata><text xml:id=\"t\"><w xml:id=\"w\"><pos xml:id=\"p\" class=\"x\">{}</pos><pos xml:id=\"q\" class=\"x\">{}</pos></w></text></FoLiA>",body,late);
    let mut d = match Document::from_str(&xml,make_props(&Props::bare(),false)) { Ok(d) => d, Err(e) => { o.label("refused"); return if c.parsed && c.n > c.free { Ok(()) } else { Err(format!("not loaded: {}",e)) }; } };
    let q = d.get_element_key_by_id("q").ok_or("no such element")?; let mut expected: Vec<(Option<String>,Option<String>)> = vec![];
    for i in 0..c.n { let x = (Some(format!("late{}",i)),Some(format!("d{}",i))); if c.parsed { expected.push(x); continue; }
        match d.add_element_to(q,ElementData::new(ElementType::Feature).with_attrib(Attribute::Subset(format!("late{}",i))).with_attrib(Attribute::Class(format!("d{}",i)))) {
            Ok(_) => expected.push(x), Err(e) => { o.label("refused"); if i < c.free { return Err(format!("feature {} is refused: {}",i,e)); } } } }
    let got: Vec<_> = d.get_element(q).ok_or("element gone")?.get_features(Cmp::Any).map(|f| (f.subset().map(|s| s.to_string()),f.class().map(|s| s.to_string()))).collect();
    if got != expected { return Err(format!("with {} subsets in the vocabulary, the features are {:?} instead of {:?}",n,got,expected)); }
    Ok(())
}
pub fn c20() -> Prop { Prop { id: "C20", rule: RULE, assumptions: ASSUME, subs: vec![sub("histories",16000,300000,h20,check20), sub("loaded",12000,300000,featdoc,check20_load), sub("saved",6000,100000,featdoc,check_roundtrip), sub("many subsets",8,40,many,check_many)] } }

// ---------------------------------------------------------------------------------------------- C22
fn h22(g: &mut G) -> Hist { let loose = g.chance(1,3); hist(g,&Profile { ops: vec![(4,"inline"),(3,"add"),(3,"declare"),(3,"class"),(2,"processor"),(1,"subprocessor"),(1,"attach processor"),(2,"provenance"),(1,"activate"),(1,"attach"),(1,"detach"),(1,"orphan"),(2,"feature"),(1,"properties"),(2,"vocabulary")], loose, bad: 2, wrong: 3, max: 24, ..Default::default() }) }
///The stores by themselves: strings
#[derive(Serialize,Deserialize,Clone,Debug)] pub enum SOp { Add(String), Key(String), Get(usize) }
#[derive(Serialize,Deserialize)] pub struct Strings { ops: Vec<SOp>, subset: bool }
fn strings(g: &mut G) -> Strings { let mut pool: Vec<String> = ["a","b","A","a ","","ä","a\u{308}","0","1"].iter().map(|s| s.to_string()).collect(); for _ in 0..4 { pool.push(gen::value(g)); } let n = g.range(1,40); Strings { subset: g.chance(1,2), ops: (0..n).map(|_| match g.below(4) { 0|1 => SOp::Add(g.pick(&pool).clone()), 2 => SOp::Key(g.pick(&pool).clone()), _ => SOp::Get(g.below(20)) }).collect() } }
fn check_strings(c: &Strings, o: &mut Obs) -> Res {
    let mut dec = Declaration::new(at("POS"),None,None,None); let mut m: Vec<String> = vec![]; let mut repeated = false;
    for op in c.ops.iter() { match op {
        SOp::Add(s) => { let k = if c.subset { dec.add_subset(s.as_str().into()).map(|k| k as usize) } else { dec.add_class(s.as_str().into()).map(|k| k as usize) }.map_err(|e| e.to_string())?;
            let old = m.iter().position(|x| x == s); if old.is_some() { repeated = true; } let get = if c.subset { dec.get_subset(k as SubsetKey) } else { dec.get_class(k as ClassKey) };
            if get != Some(s.as_str()) { return Err(format!("{:?} was added under key {}, which denotes {:?}",s,k,get)); }
            match old { Some(i) => if i != k { return Err(format!("{:?} was known under key {}, now it is {}",s,i,k)); }, None => { if k != m.len() { return Err(format!("new key {} where {} is free",k,m.len())); } m.push(s.clone()); } } }
        SOp::Key(s) => { let k = if c.subset { dec.subset_key(s).map(|k| k as usize) } else { dec.class_key(s).map(|k| k as usize) }; let e = m.iter().position(|x| x == s); if k != e { return Err(format!("key of {:?} is {:?} instead of {:?}",s,k,e)); } }
        SOp::Get(i) => { let s = if c.subset { dec.get_subset(*i as SubsetKey) } else { dec.get_class(*i as ClassKey) }; if s != m.get(*i).map(|s| s.as_str()) { return Err(format!("key {} denotes {:?} instead of {:?}",i,s,m.get(*i))); } }
    } }
    if dec.get_subclass(0).is_some() || (c.subset && dec.get_class(0).is_some()) || (!c.subset && dec.get_subset(0).is_some()) { return Err("another vocabulary of the declaration was changed".into()); }
    if !m.is_empty() && { let n = if c.subset { dec.subsets.as_ref().map(|s| StringStore::len(s)) } else { dec.classes.as_ref().map(|s| StringStore::len(s)) }; n != Some(m.len()) } { return Err("wrong size".into()); }
    o.nontrivial(m.len() > 1 && repeated); Ok(())
}
///More items than there are keys: an error, never a key that denotes something else
#[derive(Serialize,Deserialize)] pub struct Capacity { kind: usize }
fn check_capacity(c: &Capacity, o: &mut Obs) -> Res {
    o.nontrivial(true); let n = 65536;
    match c.kind {
        0 => { let mut d = Declaration::new(at("POS"),None,None,None); for i in 0..n { let k = d.add_subset(format!("s{}",i).into()).map_err(|e| format!("subset {}: {}",i,e))?; if k as usize != i { return Err(format!("subset {} gets key {}",i,k)); } }
            for i in 0..4 { if let Ok(k) = d.add_subset(format!("more{}",i).into()) { return Err(format!("more subsets than keys: key {}",k)); } }
            for i in [0,1,77,65535] { if d.get_subset(i as SubsetKey) != Some(format!("s{}",i).as_str()) || d.subset_key(&format!("s{}",i)) != Some(i as SubsetKey) { return Err(format!("subset {} is lost",i)); } } if d.subset_key("more0").is_some() { return Err("a refused subset is found".into()); } Ok(()) }
        1 => { let mut doc = Document::new("d",make_props(&Props::bare(),false)).map_err(|e| e.to_string())?; for i in 0..n { let k = doc.add_declaration(Declaration::new(at("POS"),Some(format!("s{}",i)),None,None)).map_err(|e| format!("declaration {}: {}",i,e))?; if k as usize != i { return Err(format!("declaration {} gets key {}",i,k)); } }
            for i in 0..4 { if let Ok(k) = doc.add_declaration(Declaration::new(at("POS"),Some(format!("more{}",i)),None,None)) { return Err(format!("more declarations than keys: key {}",k)); } }
            for i in [0usize,1,77,65535] { let id = Declaration::index_id(at("POS"),&Some(format!("s{}",i).as_str())); if doc.get_declaration_key_by_id(&id) != Some(i as DecKey) || doc.get_declaration(i as DecKey).and_then(|d| d.set.clone()) != Some(format!("s{}",i)) { return Err(format!("declaration {} is lost",i)); } } Ok(()) }
        2 => { let mut doc = Document::new("d",make_props(&Props::bare(),false)).map_err(|e| e.to_string())?; for i in 0..n { let k = doc.add_provenance(make_proc(&Proc { id: format!("p{}",i), name: "n".into(), ..Default::default() })).map_err(|e| format!("processor {}: {}",i,e))?; if k as usize != i { return Err(format!("processor {} gets key {}",i,k)); } }
            if let Ok(k) = doc.add_provenance(make_proc(&Proc { id: "more".into(), name: "n".into(), ..Default::default() })) { return Err(format!("more processors than keys: key {}",k)); }
            for i in [0usize,1,77,65535] { if doc.get_processor_key_by_id(&format!("p{}",i)) != Some(i as ProcKey) || doc.get_processor(i as ProcKey).map(|p| p.id.clone()) != Some(format!("p{}",i)) { return Err(format!("processor {} is lost",i)); } } Ok(()) }
        4 => { let n = 200_000; let mut doc = Document::new("d",make_props(&Props::bare(),false)).map_err(|e| e.to_string())?; let mut keys = HashMap::new(); let mut parent = 0;
            for i in 0..n { let e = ElementData::new(ElementType::Word).with_attrib(Attribute::Id(format!("w{}",i))); if i % 1000 == 0 { parent = doc.add_element_to(0,ElementData::new(ElementType::Sentence)).map_err(|e| e.to_string())?; if let Some(j) = keys.insert(parent,usize::MAX) { return Err(format!("key {} was given to element {} and again",parent,j)); } } let k = doc.add_element_to(parent,e).map_err(|e| format!("element {}: {}",i,e))?; if let Some(j) = keys.insert(k,i) { return Err(format!("key {} was given to elements {} and {}",k,j,i)); } }
            for (k,i) in keys.iter() { let e = doc.get_element(*k).ok_or_else(|| format!("no element under key {}",k))?; let id = if *i == usize::MAX { None } else { Some(format!("w{}",i)) }; if e.id().map(|s| s.to_string()) != id || e.key() != Some(*k) { return Err(format!("key {} of element {:?} denotes {:?}",k,id,e.id())); } if let Some(id) = &id { if doc.get_element_key_by_id(id) != Some(*k) { return Err(format!("{} is found under key {:?} instead of {}",id,doc.get_element_key_by_id(id),k)); } } }
            let found: Vec<ElementKey> = doc.get_element(0).unwrap().get_elements(ElementType::Word,Cmp::Any,Recursion::Always).filter_map(|e| e.key()).collect(); if found.len() != n { return Err(format!("{} words of {} are found",found.len(),n)); } for (i,k) in found.iter().enumerate() { if keys[k] != i { return Err(format!("word {} is found as number {}",keys[k],i)); } } Ok(()) }
        _ => { let mut d = Declaration::new(at("POS"),None,None,None); for i in 0..n+4000 { let k = d.add_class(format!("c{}",i).into()).map_err(|e| format!("class {}: {}",i,e))?; if k as usize != i { return Err(format!("class {} gets key {}",i,k)); } }
            for i in [0,1,255,256,65535,65536,65537,n+3999] { if d.get_class(i as ClassKey) != Some(format!("c{}",i).as_str()) || d.class_key(&format!("c{}",i)) != Some(i as ClassKey) { return Err(format!("class {} is lost",i)); } } Ok(()) }
    }
}
///Elements are told apart by their keys
fn check22(h: &Hist, o: &mut Obs) -> Res {
    let w = perform(h,o,&mut nothing)?; let els: Vec<Element> = w.keys.iter().filter_map(|k| w.doc.get_element(*k)).collect(); if els.len() != w.keys.len() { return Err("an element is gone".into()); }
    for (i,a) in els.iter().enumerate() { let n = els.iter().filter(|b| *b == a).count(); if n != 1 || a.key() != Some(w.keys[i]) { return Err(format!("element {} equals {} elements, its key is {:?}",w.keys[i],n,a.key())); } }
    Ok(())
}
pub fn c22() -> Prop { Prop { id: "C22", rule: RULE, assumptions: ASSUME, subs: vec![sub("histories",24000,500000,h22,check22), sub("vocabularies",8000,200000,strings,check_strings), sub("capacity",5,5,|g| Capacity { kind: g.index % 5 },check_capacity)] } }

// ---------------------------------------------------------------------------------------------- C02, C03: documents that were built and edited
pub fn h_built(g: &mut G) -> Hist { hist(g,&Profile { ops: vec![(5,"add"),(5,"annotate"),(4,"inline"),(3,"span"),(1,"orphan"),(2,"attach"),(1,"detach"),(2,"declare"),(1,"class"),(1,"processor"),(1,"subprocessor"),(1,"attach processor"),(2,"activate"),(1,"feature"),(1,"properties")], max: 16, firm: true, ..Default::default() }) }
///The document in the model's memory, spelled out
fn spelled_out(m: &Model) -> Doc {
    fn el(m: &Model, k: K) -> El { let e = &m.els[k]; let mut x = El::new(e.ty); for (n,v) in e.attrs.iter() { if !["SET","CLASS","PROCESSOR","SUBSET"].contains(&n.as_str()) { x.attrs.push((n.clone(),v.clone())); } }
        if e.ty != "Feature" { if let Some(s) = m.set(k) { x.attrs.push(("SET".into(),s.into())); } } if let Some(c) = &e.class { x.attrs.push(("CLASS".into(),c.clone())); } if let Some(c) = &e.subset { x.attrs.push(("SUBSET".into(),c.clone())); } if let Some(p) = m.proc_id(k) { x.attrs.push(("PROCESSOR".into(),p.into())); }
        for d in e.data.iter() { match d { MData::El(c) => x.data.push(Node::El(el(m,*c))), MData::Text(t) => match x.data.last_mut() { Some(Node::Text(a)) => a.push_str(t), _ => x.data.push(Node::Text(t.clone())) }, MData::Comment(c) => x.data.push(Node::Comment(c.clone())), MData::Span(_) => {} } } x }
    fn proc(m: &Model, k: usize) -> Proc { let mut p = m.procs[k].p.clone(); p.subs = m.procs[k].subs.iter().map(|s| proc(m,*s)).collect(); p }
    Doc { id: m.id.clone(), meta: m.meta.clone(), submeta: m.submeta.values().cloned().collect(), decs: m.decs.iter().map(|d| Dec { at: d.at.clone(), set: d.set.clone(), alias: d.alias.clone(), format: d.format.clone(), annotators: d.procs.iter().map(|p| m.procs[*p].p.id.clone()).collect() }).collect(), procs: m.chain.iter().map(|p| proc(m,*p)).collect(), body: el(m,0) }
}
fn flat(mut d: Dump) -> Dump { for r in d.roots.iter_mut() { strip_spans(r); merge_text(r); } d.submeta.clear(); d }
pub fn check_built(h: &Hist, o: &mut Obs) -> Res {
    let w = perform(h,o,&mut nothing)?;
    let want = match Model::load(&spelled_out(&w.m),&Props::bare()) { Ok(m) => flat(dump_model(&m,&[0]).0), Err(_) => { o.label("refers to a detached element"); o.nontrivial = false; return Ok(()) } };
    let mut held = flat(dump_model(&w.m,&[0]).0); implicit_procs(&mut held,&want);
    if let Some(_d) = diff(&held,&want) { o.label("not what XML can say"); o.nontrivial = false; if std::env::var("PBT_SHOW").is_ok() { eprintln!("NOT: {}",_d); } return Ok(()); }
    o.label("saved");
    for indent in [0usize,3] {
        let x = xml_of(&w.doc,indent)?;
        let says = conv::read_doc(x.as_bytes()).map_err(|e| format!("the XML {}\n{}",e,x))?;
        let m = Model::load(&says,&Props::bare()).map_err(|e| format!("the XML does not describe a valid document: {}\n{}",e,x))?;
        expect(&flat(dump_model(&m,&[0]).0),&want,"what the XML says").map_err(|e| format!("{}\n{}",e,x))?;
        let d = load(&x,&Props::bare()).map_err(|e| format!("the saved document does not load: {}\n{}",e,x))?;
        expect(&flat(body(&d)?),&want,"reloaded document").map_err(|e| format!("{}\n{}",e,x))?;
        if indent == 3 { roundtrips(d,&[2])?; }
    }
    Ok(())
}
