//! C01, C02, C03: reading and writing documents.
use crate::{doc::*,engine::*,gen,model::Model,dump::*,conv,xmlw};
use folia::*;
use serde::{Serialize,Deserialize};

pub fn load(xml: &str, props: &Props) -> Result<Document,String> { Document::from_str(xml,make_props(props,false)).map_err(|e| format!("{}",e)) }
pub fn xml_of(d: &Document, indent: usize) -> Result<String,String> { let b = d.xml(0,indent).map_err(|e| format!("serialisation failed: {}",e))?; String::from_utf8(b).map_err(|e| format!("output is not UTF-8: {}",e)) }
pub fn body(d: &Document) -> Result<Dump,String> { let r = roots(d); if r.first() != Some(&0) { return Err("the body is not the first element".into()); } Ok(dump(d,&r)?.0) }
pub fn classify(d: &Doc, o: &mut Obs) {
    let mut n = 0; d.body.visit(&mut |e| { n += 1;
        for (k,_) in e.attrs.iter() { if k.starts_with("FEAT:") { o.label("shortcut feature") } else if ["SET","CLASS","PROCESSOR","SPACE","IDREF","HREF"].contains(&k.as_str()) { o.label(&format!("attribute {}",k)) } }
        let (t,c) = (e.data.iter().any(|x| matches!(x,Node::Text(_))),e.kids().count() > 0); if t && c { o.label("mixed content") } if e.data.iter().any(|x| matches!(x,Node::Comment(_))) { o.label("comments") }
        if e.ty == "WordReference" { o.label("word references") } if e.ty == "Feature" { o.label("features") } if e.ty == "Correction" { o.label("corrections") } });
    o.label(match n { 0..=1 => "1 element", 2..=5 => "2-5 elements", 6..=20 => "6-20 elements", _ => ">20 elements" });
    if d.procs.iter().any(|p| !p.subs.is_empty()) { o.label("subprocessors") } if d.decs.len() > 1 { o.label("several declarations") } if !d.submeta.is_empty() { o.label("submetadata") }
    let mut ats: Vec<&str> = d.decs.iter().map(|x| x.at.as_str()).collect(); let m = ats.len(); ats.sort(); ats.dedup(); if ats.len() < m { o.label("several sets of a type") }
    o.nontrivial(n >= 3);
}
pub fn expect(observed: &Dump, expected: &Dump, what: &str) -> Res { match diff(observed,expected) { Some(d) => Err(format!("{}: {}",what,d)), None => Ok(()) } }
pub fn model_dump(m: &Model) -> Dump { dump_model(m,&m.roots()).0 }
pub fn scratch(name: &str) -> std::path::PathBuf { std::env::temp_dir().join(format!("pbt-{}-{}-{:?}",name,std::process::id(),std::thread::current().id())) }

#[derive(Serialize,Deserialize)] pub struct DocCase { pub doc: Doc, #[serde(default)] pub bare: bool, #[serde(default)] pub loose: bool, #[serde(default)] pub indent: Vec<usize> }
pub fn any_doc(g: &mut G) -> DocCase { some_doc(g,false) }
pub fn firm_doc(g: &mut G) -> DocCase { some_doc(g,true) }
fn some_doc(g: &mut G, firm_features: bool) -> DocCase { let loose = g.chance(1,5); let o = gen::Opts { loose, ids: 3, firm_features, ..Default::default() }; let doc = gen::doc(g,o); let mut indent = vec![]; while indent.len() < 3 && g.chance(3,4) { indent.push(g.below(9)); } DocCase { doc, bare: g.chance(1,2), loose, indent } }
pub fn props_of(bare: bool) -> Props { if bare { Props::bare() } else { Props::default_() } }

pub fn check_parse(c: &DocCase, o: &mut Obs) -> Res {
    classify(&c.doc,o);
    let props = props_of(c.bare);
    let xml = xmlw::plain(&c.doc);
    let m = Model::load(&c.doc,&props)?;
    let d = load(&xml,&props).map_err(|e| format!("a valid document is refused: {}\n{}",e,xml))?;
    let dd = body(&d)?;
    expect(&dd,&model_dump(&m),"loaded document")?;
    Ok(())
}
fn check_file(c: &DocCase, o: &mut Obs) -> Res {
    classify(&c.doc,o);
    let props = props_of(c.bare);
    let xml = xmlw::plain(&c.doc);
    let path = scratch("c01");
    std::fs::write(&path,&xml).map_err(|e| e.to_string())?;
    let d = Document::from_file(path.to_str().unwrap(),make_props(&props,false)); std::fs::remove_file(&path).ok();
    if let Ok(d) = &d { if d.filename() != path.to_str() { return Err(format!("the document loaded from {:?} says it is from {:?}",path,d.filename())); } }
    let d = d.map_err(|e| format!("a valid file is refused: {}",e))?;
    expect(&body(&d)?,&model_dump(&Model::load(&c.doc,&props)?),"document loaded from a file")
}
#[derive(Serialize,Deserialize)] pub struct Deep { pub depth: usize, pub width: usize }
fn wide_doc(c: &Deep) -> Doc {
    let mut e = El::new("Division").a("ID","inner").t("x");
    for i in 0..c.width { e = e.c(El::new("Sentence").a("ID",&format!("s{}",i)).c(El::new("Word").a("CLASS","N"))); }
    for i in 0..c.depth { let mut p = El::new("Division").a("ID",&format!("d{}",i)); if i % 7 == 0 { p = p.c(El::new("Head")); } e = p.c(e); }
    Doc { id: "d".into(), body: El::new("Text").c(e), ..Default::default() }
}
fn check_wide(c: &Deep, o: &mut Obs) -> Res { o.nontrivial(c.depth+c.width > 3); o.label(if c.depth > c.width {"deep"} else {"wide"}); let d = wide_doc(c); let xml = xmlw::plain(&d); let l = load(&xml,&Props::bare())?; expect(&body(&l)?,&model_dump(&Model::load(&d,&Props::bare())?),"loaded document") }
pub fn c01() -> Prop { Prop { id: "C01", rule: "a case is a generated document description (metadata, declarations, provenance, element tree) written as XML and loaded; non-trivial: at least three elements; distinct by content", assumptions: &["the reference model (pbt/src/model.rs) states what a document means","the known findings listed in known_findings.json are excluded by construction"],
    subs: vec![sub("parse",24000,600000,any_doc,check_parse), sub("file",600,12000,any_doc,check_file), sub("wide",40,400,|g| { let (d,w) = (g.below(150),g.below(400)); Deep { depth: d, width: w } },check_wide)] } }

fn sorted(mut e: El) -> El { e.visit_mut(&mut |e| e.attrs.sort()); e }
fn check_xml(c: &DocCase, o: &mut Obs) -> Res {
    classify(&c.doc,o);
    let d = load(&xmlw::plain(&c.doc),&props_of(c.bare))?;
    says_what_it_holds(&d,&c.indent)
}
///The XML of the document says exactly what the document holds, at any indentation
pub fn says_what_it_holds(d: &Document, indents: &[usize]) -> Res {
    let mut held = dump(d,&[0])?.0; for r in held.roots.iter_mut() { merge_text(r) }
    let mut first: Option<(String,Doc)> = None;
    for indent in [0usize].iter().chain(indents.iter()) {
        let xml = xml_of(d,*indent)?;
        let says = conv::read_doc(xml.as_bytes()).map_err(|e| format!("the XML (indentation {}) {}\n{}",indent,e,xml))?;
        match &first {
            None => {
                let m = Model::load(&says,&Props::bare()).map_err(|e| format!("the XML does not describe a valid document: {}\n{}",e,xml))?;
                let mut md = dump_model(&m,&[0]).0; for r in md.roots.iter_mut() { merge_text(r) }
                implicit_procs(&mut held,&md);
                expect(&md,&held,"what the XML says").map_err(|e| format!("{}\n{}",e,xml))?;
                first = Some((xml,says));
            }
            Some((_,f)) => { let n = |d: &Doc| { let mut d = d.clone(); d.meta.fields.sort(); for s in d.submeta.iter_mut() { s.fields.sort() } d.submeta.sort_by(|a,b| a.id.cmp(&b.id)); fn p(p: &mut Proc) { p.meta.sort(); for s in p.subs.iter_mut() { crate::props::io::sort_proc(s) } } for q in d.procs.iter_mut() { p(q) } d }; if n(&says) != n(f) { return Err(format!("indentation {} changes what the XML says:\n{}",indent,xml)); } }
        }
    }
    Ok(())
}
pub fn sort_proc(p: &mut Proc) { p.meta.sort(); for s in p.subs.iter_mut() { sort_proc(s) } }
#[derive(Serialize,Deserialize)] pub struct FragCase { pub doc: Doc, pub which: Vec<usize>, pub indent: usize }
fn check_fragment(c: &FragCase, o: &mut Obs) -> Res {
    classify(&c.doc,o);
    let d = load(&xmlw::plain(&c.doc),&Props::bare())?;
    let whole = conv::read_doc(xml_of(&d,c.indent)?.as_bytes())?;
    let mut all = vec![]; whole.body.visit(&mut |e| all.push(e.clone()));
    let keys = dump(&d,&[0])?.1;
    if all.len() != keys.len() { return Err(format!("{} elements in the XML, {} in the document",all.len(),keys.len())); }
    for w in c.which.iter() { let i = w % keys.len();
        let e = d.get_element(keys[i]).ok_or("element gone")?;
        let x = e.xml(c.indent).map_err(|e| format!("serialising an element failed: {}",e))?;
        let f = conv::read_el(&x).map_err(|e| format!("the XML of an element {}\n{}",e,x))?;
        if sorted(f) != sorted(all[i].clone()) { return Err(format!("the XML of element {} is not the fragment of the document's XML: {}",i,x)); }
        let b = d.xml(keys[i],c.indent).map_err(|e| e.to_string());
        let _ = b;
    }
    Ok(())
}
pub fn c02() -> Prop { Prop { id: "C02", rule: "a case is a generated document, loaded or built, serialised at several indentations and read back by an independent XML reader; non-trivial: at least three elements; distinct by content", assumptions: &["the strict XML reader (pbt/src/xmlr.rs) accepts exactly well-formed XML without DTD"],
    subs: vec![sub("parsed",14000,300000,firm_doc,check_xml), sub("built",10000,200000,super::hists::h_built,super::hists::check_built), sub("fragment",5000,100000,|g| { let c = any_doc(g); let mut which = vec![]; while which.len() < 6 && g.chance(5,6) { which.push(g.below(1000)) } FragCase { doc: c.doc, which, indent: g.below(6) } },check_fragment)] } }

pub fn check_roundtrip(c: &DocCase, o: &mut Obs) -> Res {
    classify(&c.doc,o);
    let d = load(&xmlw::plain(&c.doc),&props_of(c.bare))?;
    roundtrips(d,&c.indent)
}
pub fn roundtrips(d: Document, indents: &[usize]) -> Res {
    let mut cur = d; let mut bodyxml: Option<(usize,String)> = None;
    let mut cycles: Vec<usize> = indents.to_vec(); cycles.push(0); cycles.push(0);
    for (i,indent) in cycles.iter().enumerate() {
        let xml = xml_of(&cur,*indent)?;
        let next = load(&xml,&Props::bare()).map_err(|e| format!("the saved document does not load (cycle {}): {}\n{}",i+1,e,xml))?;
        let mut a = dump(&cur,&[0])?.0; let mut b = body(&next)?;
        for r in a.roots.iter_mut().chain(b.roots.iter_mut()) { merge_text(r) }
        if i == 0 { implicit_procs(&mut a,&b); }
        expect(&b,&a,&format!("reloaded document (cycle {}, indentation {})",i+1,indent)).map_err(|e| format!("{}\n{}",e,xml))?;
        let bx = cur.get_element(0).ok_or("no body")?.xml(*indent).map_err(|e| e.to_string())?;
        if let Some((ind,x)) = &bodyxml { if ind == indent && *x != bx { return Err(format!("saving again gives other XML:\n{}\ninstead of\n{}",bx,x)); } }
        bodyxml = Some((*indent,bx));
        cur = next;
    }
    Ok(())
}
pub fn c03() -> Prop { Prop { id: "C03", rule: "a case is a generated document, loaded or built and edited, taken through up to five save/load cycles at generated indentations; non-trivial: at least three elements; distinct by content", assumptions: &["equality of documents is judged on the complete public view (pbt/src/dump.rs)","an annotation without processor whose declaration has a sole annotator is attributed to it on reload: by FoLiA's defaults this is the same document"],
    subs: vec![sub("parsed",20000,300000,firm_doc,check_roundtrip), sub("built",8000,160000,super::hists::h_built,super::hists::check_built)] } }

#[derive(Serialize,Deserialize)] pub struct Spelled { pub doc: Doc, pub bare: bool, pub styles: Vec<Vec<u8>>, pub file: bool }
fn spelled(g: &mut G) -> Spelled { let c = any_doc(g); let mut styles = vec![]; while styles.len() < 4 && (styles.is_empty() || g.chance(3,4)) { let mut v = vec![]; while v.len() < 40 && (v.is_empty() || g.chance(19,20)) { v.push(g.below(256) as u8) } styles.push(v); } Spelled { doc: c.doc, bare: c.bare, styles, file: g.chance(1,20) } }
fn check_spelling(c: &Spelled, o: &mut Obs) -> Res {
    classify(&c.doc,o); o.nontrivial = false;
    let props = props_of(c.bare);
    let plain = xmlw::plain(&c.doc);
    let norm = |mut d: Dump| { for r in d.roots.iter_mut() { merge_text(r) } d };
    let first = norm(body(&load(&plain,&props)?)?);
    for s in c.styles.iter() {
        let xml = xmlw::write(&c.doc,s);
        if xml != plain { o.nontrivial(true); o.add(1); }
        for (l,t) in [("CDATA","<![CDATA["),("processing instruction","<?pi"),("prefix","<folia:text"),("mixed prefixes","xmlns:f="),("single quotes","='"),("hexadecimal reference","&#x"),("CRLF","\r\n"),("XML declaration left out","")] { if if t.is_empty() { !xml.starts_with("<?xml") } else { xml.contains(t) } { o.label(l) } }
        //the harness's own reader has to agree that it is the same document
        let d = if c.file { let path = scratch("c05"); std::fs::write(&path,&xml).map_err(|e| e.to_string())?; let d = Document::from_file(path.to_str().unwrap(),make_props(&props,false)).map_err(|e| format!("{}",e)); std::fs::remove_file(&path).ok(); d } else { load(&xml,&props) };
        let d = d.map_err(|e| format!("another spelling of the document is refused: {}\n{}",e,xml))?;
        expect(&norm(body(&d)?),&first,"document in another spelling").map_err(|e| format!("{}\n{}\ninstead of\n{}",e,xml,plain))?;
    }
    let m = norm(model_dump(&Model::load(&c.doc,&props)?));
    expect(&first,&m,"document in the plain spelling")
}
pub fn c05() -> Prop { Prop { id: "C05", rule: "a case is a generated document written in up to four random spellings, each loaded and compared with the plain spelling and the reference model; non-trivial: at least one spelling differs from the plain one; distinct by content", assumptions: &["adjacent pieces of text are one text","text split by a processing instruction or CDATA section is split where no piece is blank (known finding)"],
    subs: vec![sub("spelling",14000,300000,spelled,check_spelling)] } }
