//! C13: text.
use crate::{doc::*,engine::*,gen,hist::*,model::*,spec::*,props::io::*,props::selects::model_of};
use folia::*;
use serde::{Serialize,Deserialize};
use std::fmt::Write;

#[derive(Clone,Debug,Serialize,Deserialize)]
pub struct Ask { pub el: usize, pub class: Option<String>, pub set: Option<String>, pub retain: bool, #[serde(default)] pub build: bool }
#[derive(Serialize,Deserialize)] pub struct TextCase { pub hist: Hist, pub asks: Vec<Ask> }
fn params(a: &Ask) -> TextParameters {
    if !a.build { return TextParameters { set: a.set.clone(), textclass: a.class.clone(), retaintokenisation: a.retain, ..Default::default() } }
    let mut p = TextParameters::new().retaintokenisation(a.retain); if let Some(s) = &a.set { p = p.set(s) } if let Some(c) = &a.class { p = p.textclass(c) } p
}
fn check13(c: &TextCase, o: &mut Obs) -> Res {
    let mut o2 = Obs::default(); let w = perform(&c.hist,&mut o2,&mut |_,_,_| Ok(()))?; let m = &w.m;
    for a in c.asks.iter() {
        let k = a.el % m.els.len(); let key = w.key(k); let e = w.doc.get_element(key).ok_or("element gone")?;
        let (class,set) = (a.class.clone().unwrap_or("current".into()), a.set.clone().unwrap_or(TEXTSET.into()));
        let ex = m.text(k,&class,a.retain,&set);
        let t = e.text(&params(a)).ok(); if t != ex { return Err(format!("text of element {} ({}), class {:?}, set {:?}{} is {:?} instead of {:?}",key,m.els[k].ty,class,set,if a.retain {", tokenised"} else {""},t,ex)); }
        let t = w.doc.text(key,&params(a)).ok(); if t != ex { return Err(format!("Document::text of element {} is {:?} instead of {:?}",key,t,ex)); }
        if w.doc.text(ABSENT+key,&params(a)).is_ok() { return Err("text of an element that does not exist".into()); }
        if let Some(d) = w.doc.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT,&Some(set.as_str()))) { if let Some(ck) = w.doc.get_declaration(d).and_then(|d| d.class_key(&class)) {
            let t = e.text_by_key(d,ck,false,a.retain,None).ok(); if t != ex { return Err(format!("text_by_key of element {} is {:?} instead of {:?}",key,t,ex)); }
            let t = w.doc.text_by_key(key,d,ck,false,a.retain).ok(); if t != ex { return Err(format!("Document::text_by_key of element {} is {:?} instead of {:?}",key,t,ex)); }
            o.label("by key");
        } }
        let d = e.get_textdelimiter(a.retain).map_err(|e| e.to_string())?; let de = m.delimiter(k,a.retain); if d != de { return Err(format!("delimiter of element {} ({}) is {:?} instead of {:?}",key,m.els[k].ty,d,de)); }
        let def = m.text(k,"current",false,TEXTSET); let mut s = String::new(); let r = write!(s,"{}",e).ok().map(|_| s); if r != def { return Err(format!("element {} ({}) is displayed as {:?} instead of {:?}",key,m.els[k].ty,r,def)); }
        o.add(1); o.label(match &ex { None => "no text", Some(t) if t.len() < 8 => "short text", _ => "longer text" }); if ex.is_some() && m.children(k).count() > 0 && ts(m.els[k].ty).textcontainer == false { o.nontrivial(true); }
        if m.els[k].ty == "Correction" && ex.is_some() { o.label("correction") } if in_group("Span",m.els[k].ty) && ex.is_some() { o.label("through word references") } if class != "current" && ex.is_some() { o.label("other class") } if set != TEXTSET && ex.is_some() { o.label("other set") }
    }
    Ok(())
}
fn gen13(g: &mut G) -> TextCase {
    let p = Profile { ops: vec![(3,"add"),(2,"annotate"),(4,"span"),(1,"attach"),(1,"detach"),(1,"inline")], load: 6, max: if g.chance(2,3) {3} else {10}, wrong: 0, bad: 0, loose: true, ..Default::default() };
    let mut hist = hist(g,&p);
    if g.chance(7,8) { match &mut hist.start { Start::New { props, .. } | Start::Load { props, .. } => *props = Props::default_() } }
    //what is built can have blank text (in XML, blank text is taken for layout)
    if g.chance(1,2) { for op in hist.ops.iter_mut() { if let Op::AddTo { el, .. } | Op::Annotate { el, .. } | Op::Orphan { el } = op { el.visit_mut(&mut |e| if e.ty == "TextContent" && e.data.len() == 1 && g.chance(1,4) { if let Node::Text(t) = &mut e.data[0] { *t = g.pick(&[" ","\n","\u{a0}","  "]).to_string() } }); } } }
    let m = model_of(&hist); let mut asks = vec![];
    let sets: Vec<String> = m.decs.iter().filter(|d| d.at == "TEXT").filter_map(|d| d.set.clone()).collect();
    while asks.len() < 12 && (asks.is_empty() || g.chance(11,12)) {
        let class = if g.chance(3,5) { if g.chance(1,2) { None } else { Some("current".into()) } } else { Some((*g.pick(&["original","ocr","N","unknown","current","Current","current ","curren"])).to_string()) };
        let set = if g.chance(7,8) || sets.is_empty() { if g.chance(1,2) { None } else { Some(TEXTSET.into()) } } else if g.chance(1,5) { Some("unknown".into()) } else { Some(g.pick(&sets).clone()) };
        asks.push(Ask { el: if g.chance(1,6) {0} else {g.below(m.els.len())}, class, set, retain: g.chance(1,3), build: g.chance(1,2) });
    }
    TextCase { hist, asks }
}
// ------------------------------------------------------------------------ text that is known beforehand
///A document made from tokens whose text is known by construction, and the same with things added that must not matter
#[derive(Serialize,Deserialize)] pub struct Known { clean: El, noisy: El, text: String, tokens: String, words: Vec<(String,String)>, other: Option<String>, noise: usize, api: bool }
fn noise(g: &mut G, n: &mut usize, around: &str) -> Option<Node> {
    if !g.chance(1,3) { return None; } *n += 1;
    Some(match g.below(7) {
        0 => Node::Comment("noise".into()),
        1 => Node::El(El::new("Description").t("noise")),
        2 => Node::El(El::new("Comment").t("noise")),
        3 => Node::El(El::new("PosAnnotation").a("CLASS","noise").c(El::new("Description").t("noise"))),
        4 if around != "Word" => Node::El(El::new("Hiddenword").c(El::new("TextContent").t("noise"))),
        5 => Node::El(El::new("Alternative").c(El::new("TextContent").t("noise"))),
        _ => Node::El(El::new("TextContent").a("CLASS","noise").t("noise")),
    })
}
fn sp(c: char) -> bool { matches!(c,' '|'\t'|'\n'|'\r') }
fn token(g: &mut G) -> String { loop { let s = gen::text(g); if s.trim_matches(sp) != "" && s.trim_matches(sp) == s { return s; } } }
///The text content of a token, possibly in pieces
fn content(g: &mut G, s: &str) -> El {
    let mut t = El::new("TextContent"); let cs: Vec<char> = s.chars().collect();
    if cs.len() < 3 || g.chance(2,3) { return t.t(s); }
    let i = g.range(1,cs.len()-2); let j = g.range(i+1,cs.len()-1);
    let part = |a: usize,b: usize| cs[a..b].iter().collect::<String>();
    if [part(0,i),part(i,j),part(j,cs.len())].iter().any(|p| p.trim_matches(sp) == "") { return t.t(s); }
    let mut m = El::new(*g.pick(&["TextMarkupStyle","TextMarkupString"])).t(&part(i,j)); if g.chance(1,4) { m = El::new("TextMarkupStyle").c(m); }
    t = t.t(&part(0,i)).c(m); t = t.t(&part(j,cs.len())); t
}
fn gen_known(g: &mut G) -> Known {
    let mut words: Vec<(String,String)> = vec![]; let mut n = 0; let mut wn = 0;
    let mut other = String::new(); let with_other = g.chance(1,3);
    //structure: (element clean, element noisy, text, tokenised text)
    fn join(parts: Vec<(El,El,String,String,String,String)>, ty: &str) -> (El,El,String,String) { let mut c = El::new(ty); let mut m = El::new(ty); let (mut t,mut r) = (String::new(),String::new()); let k = parts.len(); for (i,(a,b,x,y,d,e)) in parts.into_iter().enumerate() { c = c.c(a); m = m.c(b); t += &x; r += &y; if i+1 < k { t += &d; r += &e; } } (c,m,t,r) }
    fn scatter(g: &mut G, n: &mut usize, mut e: El) -> El { let ty = e.ty.clone(); let mut out = vec![]; if let Some(x) = noise(g,n,&ty) { out.push(x) } for d in e.data.drain(..) { out.push(d); if let Some(x) = noise(g,n,&ty) { out.push(x) } } e.data = out; e }
    let mut top = vec![];
    for _ in 0..g.range(1,3) {
        let mut sentences = vec![];
        for _ in 0..g.range(1,3) {
            let mut parts = vec![];
            for _ in 0..g.range(1,5) {
                let s = token(g); wn += 1; let id = format!("w{}",wn); let mut w = El::new("Word").a("ID",&id); let space = !g.chance(1,3); if !space { w = w.a("SPACE","no"); } else if g.chance(1,4) { w = w.a("SPACE","yes"); }
                let t = content(g,&s);
                let mut clean = w.clone().c(t.clone()); let mut noisy;
                if with_other { let x = format!("o{}",wn); let oc = El::new("TextContent").a("CLASS","other").t(&x); clean = clean.c(oc.clone()); noisy = scatter(g,&mut n,clean.clone()); other += &x; if space { other += " "; } } else { noisy = scatter(g,&mut n,clean.clone()); }
                //the word can also get its text from a correction or from its parts
                if !with_other { match g.below(8) {
                    0 => { let mut c = El::new("Correction").c(El::new("New").c(t.clone())); if g.chance(1,2) { c = c.c(El::new("Original").c(El::new("TextContent").t("noise"))); } if g.chance(1,2) { c.data.reverse(); } noisy = w.clone().c(c); n += 1; }
                    1 => { let mut c = El::new("Correction").c(El::new("Current").c(t.clone())).c(El::new("Suggestion").c(El::new("TextContent").t("noise"))); if g.chance(1,2) { c.data.reverse(); } noisy = w.clone().c(c); n += 1; }
                    _ => {} } }
                words.push((id,s.clone()));
                parts.push((clean,noisy,s.clone(),s,if space {" ".to_string()} else {String::new()}," ".to_string()));
            }
            let (c,m,t,r) = join(parts,"Sentence"); let m = scatter(g,&mut n,m); sentences.push((c,m,t,r," ".to_string()," ".to_string()));
        }
        let (c,m,t,r) = join(sentences,"Paragraph"); let m = scatter(g,&mut n,m); top.push((c,m,t,r,"\n\n".to_string(),"\n\n".to_string()));
    }
    let several = top.len() > 1 || with_other && words.len() > 1;
    let (c,m,t,r) = join(top,"Division");
    Known { clean: El::new("Text").c(c), noisy: El::new("Text").c(m), text: t, tokens: r, words, other: if with_other && !several { Some(other.trim_end().into()) } else { None }, noise: n, api: g.chance(1,2) }
}
fn check_known(c: &Known, o: &mut Obs) -> Res {
    o.nontrivial(c.words.len() > 1); if c.noise > 0 { o.label("with noise") } o.label(if c.api {"built"} else {"loaded"});
    for (what,body) in [("the plain document",&c.clean),("the document with additions that are no text",&c.noisy)] {
        let doc = if c.api { let mut d = Document::new("d",crate::dump::make_props(&Props::default_(),false)).map_err(|e| e.to_string())?; for e in body.kids() { d.add_element_to(0,crate::dump::make(e)).map_err(|e| e.to_string())?; } d }
            else { load(&crate::xmlw::plain(&Doc { id: "d".into(), body: body.clone(), ..Default::default() }),&Props::default_())? };
        let p = TextParameters::default();
        let get = |k: ElementKey, p: &TextParameters| doc.text(k,p).map_err(|e| format!("no text in {}: {}",what,e));
        let t = get(0,&p)?; if t != c.text { return Err(format!("{}: text {:?} instead of {:?}",what,t,c.text)); }
        let t = get(0,&p.clone().retaintokenisation(true))?; if t != c.tokens { return Err(format!("{}: tokenised text {:?} instead of {:?}",what,t,c.tokens)); }
        for (id,s) in c.words.iter() { let e = doc.get_element_by_id(id).ok_or("word not found")?; let t = e.text(&p).map_err(|e| format!("no text of {} in {}: {}",id,what,e))?; if t != *s { return Err(format!("{}: text of {} is {:?} instead of {:?}",what,id,t,s)); } }
        if let Some(x) = &c.other { let t = get(0,&p.clone().textclass("other"))?; if t != *x { return Err(format!("{}: text of another class {:?} instead of {:?}",what,t,x)); } o.label("two classes"); }
        if let Ok(t) = doc.text(0,&p.clone().textclass("never used")) { return Err(format!("{}: text of a class that does not occur: {:?}",what,t)); }
        if let Ok(t) = doc.text(0,&p.clone().set("never used")) { return Err(format!("{}: text of a set that does not occur: {:?}",what,t)); }
        //through word references
        let mut d = doc; let ids: Vec<&str> = c.words.iter().map(|w| w.0.as_str()).collect();
        let e = ElementData::new(ElementType::Entity).with_attribs(vec![Attribute::Set("s".into()),Attribute::Class("c".into())]).with_span(&ids);
        let k = d.annotate_span(e).map_err(|e| e.to_string())?;
        let span = d.text(k,&p).map_err(|e| format!("no text of a span in {}: {}",what,e))?;
        let mut ex = String::new(); for (i,(id,s)) in c.words.iter().enumerate() { ex += s; if i+1 < c.words.len() { let mut sp = true; c.clean.visit(&mut |e| if e.attr("ID") == Some(id) && e.attr("SPACE") == Some("no") { sp = false }); if sp { ex += " "; } } }
        if span != ex { return Err(format!("{}: text of a span over all words is {:?} instead of {:?}",what,span,ex)); }
        o.add(5+c.words.len() as u64);
    }
    Ok(())
}
pub fn c13() -> Prop { Prop { id: "C13", rule: "requests: a document (loaded or built, then edited) with up to twelve requests for text (element, class, set, tokenisation), asked through every function that gives text; known: documents composed from tokens whose text is known by construction, plain and with additions that are no text; non-trivial: text of an element that is not a text container, or at least two words; distinct by content", assumptions: &["the reference model (pbt/src/model.rs: text, delimiter) states what the text is","blank text between markup is a known finding and excluded"],
    subs: vec![sub("requests",16000,400000,gen13,check13), sub("known",8000,200000,gen_known,check_known)] } }
