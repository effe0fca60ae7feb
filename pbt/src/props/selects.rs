//! C08, C09, C10: selections, queries, ancestors.
use crate::{doc::*,engine::*,gen,hist::*,model::*,spec::*,props::io::*,dump};
use folia::*;
use serde::{Serialize,Deserialize};

///A criterion
#[derive(Clone,Debug,PartialEq,Serialize,Deserialize,Default)]
pub enum C<T> { #[default] Any, Is(T), Some, None, Never }
impl<T: Clone> C<T> {
    fn cmp<U: std::fmt::Debug>(&self, f: impl Fn(&T)->U) -> Cmp<U> { match self { C::Any => Cmp::Any, C::Is(v) => Cmp::Is(f(v)), C::Some => Cmp::Some, C::None => Cmp::None, C::Never => Cmp::Unmatchable } }
    fn ok(&self, present: bool, is: impl Fn(&T)->bool) -> bool { match self { C::Any => true, C::Is(v) => is(v), C::Some => present, C::None => !present, C::Never => false } }
    fn given(&self) -> bool { matches!(self,C::Is(_)) }
}
///A selector, in terms of the model: declarations and processors by number
#[derive(Clone,Debug,Serialize,Deserialize,Default)]
pub struct Sel { #[serde(default)] pub kinds: Vec<u8>, #[serde(default)] pub ty: C<String>, #[serde(default)] pub group: C<String>, #[serde(default)] pub set: C<usize>, #[serde(default)] pub class: C<String>, #[serde(default)] pub proc: C<usize>, #[serde(default)] pub annotator: C<String>, #[serde(default)] pub atype: C<String>, #[serde(default)] pub conf: C<String> }
#[derive(Clone,Debug,Serialize,Deserialize)]
pub enum Rec { No, Always, Only(Vec<String>), Except(Vec<String>) }
///What is to be selected: starting element, union of selectors, flags, and the function that is asked
#[derive(Clone,Debug,Serialize,Deserialize)]
pub struct Req { pub start: usize, pub sels: Vec<Sel>, pub rec: Rec, pub inclusive: bool, pub spans: bool, pub via: usize }
#[derive(Serialize,Deserialize)] pub struct SelCase { pub hist: Hist, pub reqs: Vec<Req> }

pub const GROUPS: &[&str] = &["Structure","Inline","HigherOrder","Span","SpanRole","TextMarkup","Layer","Subtoken","Correction","AbstractStructure"];
fn groups() -> Vec<&'static str> { spec().groups.keys().map(|k| k.as_str()).collect() }
fn accepted_data(l: &[String]) -> Vec<AcceptedData> { l.iter().map(|n| if let Some(n) = n.strip_prefix('@') { AcceptedData::AcceptElementGroup(group(n)) } else { AcceptedData::AcceptElementType(et(n)) }).collect() }
fn recursion(r: &Rec) -> Recursion { match r { Rec::No => Recursion::No, Rec::Always => Recursion::Always, Rec::Only(l) => Recursion::LimitedTo(accepted_data(l)), Rec::Except(l) => Recursion::ExceptFor(accepted_data(l)) } }
fn descends(r: &Rec, ty: &str) -> bool { let has = |l: &Vec<String>| l.iter().any(|n| n == ty || n.strip_prefix('@').map_or(false,|n| in_group(n,ty))); match r { Rec::No => false, Rec::Always => true, Rec::Only(l) => has(l), Rec::Except(l) => !has(l) } }

fn selector(w: &World, s: &Sel) -> Selector {
    let (mut x,kinds): (Selector,&[u8]) = match s.kinds.as_slice() { [0,1,2] => (Selector::all_data(),&[]), [0,rest @ ..] => (Selector::elements(),rest), k => (Selector::default(),k) };
    for k in kinds.iter() { x = match k { 0 => x.with_elements(), 1 => x.with_text(), _ => x.with_comments() }; }
    x = x.element(s.ty.cmp(|t| et(t))).elementgroup(s.group.cmp(|g| group(g)));
    let deckey = |d: &usize| w.m.decs.get(*d).and_then(|d| w.doc.get_declaration_key_by_id(&Declaration::index_id(at(&d.at),&d.set.as_deref()))).unwrap_or(20_000);
    x.set = s.set.cmp(deckey);
    x.class = s.class.cmp(|c| if let C::Is(d) = &s.set { w.doc.get_declaration(deckey(d)).and_then(|d| d.class_key(c)).unwrap_or(20_000) } else { 20_000 });
    x.processor = s.proc.cmp(|p| w.pkey(*p));
    x.annotator = s.annotator.cmp(|a| a.clone()); x.annotatortype = s.atype.cmp(|a| dump::ptype_of(a)); x.confidence = s.conf.cmp(|c| c.parse::<f64>().unwrap());
    x
}
fn union(w: &World, v: &[Sel]) -> Selector { let mut it = v.iter(); let mut x = selector(w,it.next().expect("selector")); for s in it { x = x.and(selector(w,s)); } x }
fn same_number(a: Option<&str>, b: &str) -> bool { match a { Some(a) => a.parse::<f64>().ok() == b.parse::<f64>().ok(), None => false } }
fn meets_el(m: &Model, s: &Sel, k: K) -> bool {
    let e = &m.els[k];
    (s.kinds.is_empty() || s.kinds.contains(&0))
    && s.ty.ok(true,|t| t == e.ty) && s.group.ok(true,|g| in_group(g,e.ty))
    && s.set.ok(m.set(k).is_some(),|d| e.dec == Some(*d)) && s.class.ok(e.class.is_some(),|c| e.class.as_deref() == Some(c))
    && s.proc.ok(e.proc.is_some(),|p| e.proc == Some(*p))
    && s.annotator.ok(m.annotator(k).is_some(),|a| m.annotator(k) == Some(a)) && s.atype.ok(m.annotatortype(k).is_some(),|a| m.annotatortype(k) == Some(a))
    && s.conf.ok(m.attr(k,"CONFIDENCE").is_some(),|c| same_number(m.attr(k,"CONFIDENCE"),c))
}
fn meets(m: &Model, v: &[Sel], d: &MData) -> bool { v.iter().any(|s| match d { MData::El(k)|MData::Span(k) => meets_el(m,s,*k), MData::Text(_) => s.kinds.contains(&1), MData::Comment(_) => s.kinds.contains(&2) }) }
///(data, parent, position, depth) of everything that is to be selected
type Hit = (MData,K,usize,usize);
pub fn selected(m: &Model, start: K, hit: &dyn Fn(&MData)->bool, descend: &dyn Fn(&str)->bool, inclusive: bool, spans: bool) -> Vec<Hit> {
    let mut v = vec![]; let mut seen: std::collections::HashSet<K> = Default::default();
    if inclusive { let d = MData::El(start); if hit(&d) { seen.insert(start); v.push((d,m.els[start].parent.unwrap_or(start),0,0)); } }
    let mut stack = vec![(start,0usize)];
    while let Some((k,i)) = stack.pop() {
        if let Some(d) = m.els[k].data.get(i) {
            stack.push((k,i+1)); let depth = stack.len();
            let dup = spans && match d { MData::Span(s) => seen.contains(s), MData::El(s) => in_group("Span",m.els[*s].ty) && seen.contains(s), _ => false };
            if hit(d) && !dup { match d { MData::Span(s) | MData::El(s) => { seen.insert(*s); } _ => {} } v.push((d.clone(),k,i,depth)); }
            if let MData::El(c) = d { if descend(m.els[k].ty) { stack.push((*c,0)); } }
        }
    }
    v
}
fn lib_data(d: &DataType) -> String { match d { DataType::Element(k) => format!("element {}",k), DataType::SpanReference(k) => format!("span {}",k), DataType::Text(t) => format!("text {:?}",t), DataType::Comment(t) => format!("comment {:?}",t), DataType::AddElement(_) => "unconstructed element".into() } }
fn mod_data(w: &World, d: &MData) -> String { match d { MData::El(k) => format!("element {}",w.key(*k)), MData::Span(k) => format!("span {}",w.key(*k)), MData::Text(t) => format!("text {:?}",t), MData::Comment(t) => format!("comment {:?}",t) } }
fn compare<T: PartialEq+std::fmt::Debug>(found: &[T], expected: &[T], what: &str) -> Res {
    if found == expected { return Ok(()); }
    let i = found.iter().zip(expected.iter()).position(|(a,b)| a != b).unwrap_or(found.len().min(expected.len()));
    Err(format!("{}: {} items instead of {}; item {} is {:?} instead of {:?}",what,found.len(),expected.len(),i,found.get(i),expected.get(i)))
}
fn ask(w: &World, r: &Req, o: &mut Obs) -> Res {
    let k = r.start % w.m.els.len(); let key = w.key(k);
    let detached = w.m.els[k].parent.is_none() && k != 0;
    let inclusive = r.inclusive && !detached; //known finding
    let spans = r.spans;
    let hit = |d: &MData| meets(&w.m,&r.sels,d); let descend = |t: &str| descends(&r.rec,t);
    let e = w.doc.get_element(key).ok_or("element gone")?;
    let item = |i: SelectItem| (lib_data(&i),i.parent_key,i.cursor,i.depth);
    let (found, expected): (Vec<_>,Vec<Hit>) = match r.via % 4 {
        0 => (w.doc.select_data_by_key(key,union(w,&r.sels),recursion(&r.rec),inclusive,spans).map(item).collect(), selected(&w.m,k,&hit,&descend,inclusive,spans)),
        1 => (e.select_data(union(w,&r.sels),recursion(&r.rec),spans).map(item).collect(), selected(&w.m,k,&hit,&descend,false,spans)),
        2 => (w.doc.select_data(union(w,&r.sels),recursion(&r.rec),spans).map(item).collect(), selected(&w.m,0,&hit,&descend,false,spans)),
        _ => (e.select_data_by_key(key,union(w,&r.sels),recursion(&r.rec),inclusive,spans).map(item).collect(), selected(&w.m,k,&hit,&descend,inclusive,spans)),
    };
    let ex: Vec<_> = expected.iter().map(|(d,p,c,n)| (mod_data(w,d),w.key(*p),*c,*n)).collect();
    compare(&found,&ex,"selected data")?;
    if !union(w,&r.sels).matchable() && !ex.is_empty() { return Err("the selector says it cannot match".into()); }
    //elements only
    let (found, expected): (Vec<_>,Vec<Hit>) = match r.via / 4 {
        0 => (w.doc.select_by_key(key,union(w,&r.sels),recursion(&r.rec),inclusive,spans).map(|e| e.key()).collect(), selected(&w.m,k,&hit,&descend,inclusive,spans)),
        1 => (e.select(union(w,&r.sels),recursion(&r.rec)).map(|e| e.key()).collect(), selected(&w.m,k,&hit,&descend,false,true)),
        2 => (w.doc.select(union(w,&r.sels),recursion(&r.rec)).map(|e| e.key()).collect(), selected(&w.m,0,&hit,&descend,false,true)),
        _ => (e.select_by_key(key,union(w,&r.sels),recursion(&r.rec),inclusive,spans).map(|e| e.key()).collect(), selected(&w.m,k,&hit,&descend,inclusive,spans)),
    };
    let ex2: Vec<_> = expected.iter().filter_map(|(d,..)| match d { MData::El(k)|MData::Span(k) => Some(Some(w.key(*k))), _ => None }).collect();
    compare(&found,&ex2,"selected elements")?;
    o.add(1);
    if expected.len() > 1 { o.nontrivial(true); } o.label(match ex.len() { 0 => "nothing selected", 1 => "one item", 2..=9 => "2-9 items", _ => "10 items or more" });
    if expected.iter().any(|x| matches!(x.0,MData::Span(_))) { o.label("span references") } if r.sels.len() > 1 { o.label("union") } if inclusive { o.label("inclusive") }
    Ok(())
}
fn check08(c: &SelCase, o: &mut Obs) -> Res {
    let mut o2 = Obs::default();
    let w = perform(&c.hist,&mut o2,&mut |_,_,_| Ok(()))?;
    for (i,r) in c.reqs.iter().enumerate() { ask(&w,r,o).map_err(|e| format!("request {}: {}",i,e))?; }
    Ok(())
}
fn crit<T: Clone>(g: &mut G, v: &[T], some: bool) -> C<T> { match g.below(8) { 0 if some => C::Some, 1 if some => C::None, 2 if g.chance(1,6) => C::Never, _ => if v.is_empty() { C::Any } else { C::Is(g.pick(v).clone()) } } }
///A selector that fits an element of the model in what it asks for (mostly)
fn gen_sel(g: &mut G, m: &Model) -> Sel {
    let mut s = Sel::default();
    while s.kinds.len() < 3 && g.chance(1,2) { s.kinds.push(g.weighted(&[4,2,1]) as u8); }
    let k = g.below(m.els.len()); let e = &m.els[k];
    if g.chance(1,3) { s.ty = if g.chance(1,8) { C::Is((*g.pick(gen::alltypes())).into()) } else { crit(g,&[e.ty.to_string()],true) }; }
    if g.chance(1,4) { let gs: Vec<String> = groups().into_iter().filter(|x| in_group(x,e.ty)).map(|s| s.to_string()).collect(); s.group = if gs.is_empty() || g.chance(1,5) { C::Is((*g.pick(&groups())).into()) } else { crit(g,&gs,true) }; }
    if g.chance(1,6) { s.set = match e.dec { Some(d) => crit(g,&[d],true), None => crit(g,&[0usize,1,99],true) }; }
    if g.chance(1,6) { s.class = match (&s.set,&s.ty,&e.class,e.dec) { (C::Is(d),C::Is(t),Some(c),Some(ed)) if *d == ed && t == e.ty && e.ty != "Feature" => crit(g,&[c.clone()],true), _ => if g.chance(1,2) { C::Some } else { C::None } }; }
    if g.chance(1,8) { s.proc = match e.proc { Some(p) => crit(g,&[p],true), None => crit(g,&[0usize,99],true) }; }
    if g.chance(1,12) { s.annotator = crit(g,&[m.annotator(k).unwrap_or("someone").to_string()],true); }
    if g.chance(1,12) { s.atype = crit(g,&[m.annotatortype(k).unwrap_or("auto").to_string()],true); }
    if g.chance(1,12) { s.conf = crit(g,&[m.attr(k,"CONFIDENCE").unwrap_or("0.5").to_string()],true); }
    //a selector that refers to what does not exist selects no elements; whether it selects text is left open
    if s.set == C::Never || s.class == C::Never || s.proc == C::Never { s.kinds.retain(|k| *k == 0); }
    s
}
fn gen_rec(g: &mut G, m: &Model) -> Rec {
    match g.below(8) { 0 => Rec::No, 1|2 => { let mut l: Vec<String> = vec![]; while l.len() < 4 && (l.is_empty() || g.chance(2,3)) { l.push(if g.chance(1,3) { format!("@{}",g.pick(&groups())) } else { m.els[g.below(m.els.len())].ty.into() }); } if g.chance(1,2) { l.push(m.els[0].ty.into()); l.push("@Structure".into()); } if g.chance(1,2) { Rec::Only(l) } else { Rec::Except(l) } }, _ => Rec::Always }
}
///A document with whatever happened to it
fn some_world(g: &mut G) -> (Hist,Model) {
    let p = Profile { ops: vec![(3,"add"),(2,"annotate"),(3,"span"),(1,"orphan"),(2,"attach"),(1,"detach"),(2,"inline"),(1,"processor"),(1,"activate")], load: 7, max: if g.chance(1,2) {2} else {8}, wrong: 0, bad: 0, loose: true, ..Default::default() };
    let h = hist(g,&p); let m = model_of(&h); (h,m)
}
///The model after a history
pub fn model_of(h: &Hist) -> Model {
    let mut m = match &h.start { Start::New { id, speech, props } => Model::new(id,*speech,props), Start::Load { doc, props } => Model::load(doc,props) }.expect("start");
    for op in h.ops.iter() { model_apply(&mut m,op); } m
}
fn gen08(g: &mut G) -> SelCase {
    let (mut hist,mut m) = some_world(g); let mut reqs = vec![];
    if g.chance(1,10) { //a span around its own words
        let mut e = El::new("Entity").c(El::new("Word").a("ID","inner.1").t("x")).c(El::new("WordReference").a("IDREF","inner.1")); if g.chance(1,2) { e = e.c(El::new("WordReference").a("IDREF","inner.1")); }
        let op = Op::AddTo { to: g.below(m.els.len()), el: El::new("EntitiesLayer").c(e) }; let k = m.els.len()+1; model_apply(&mut m,&op); hist.ops.push(op);
        reqs.push(Req { start: k, sels: vec![Sel::default()], rec: Rec::Always, inclusive: g.chance(3,4), spans: true, via: if g.chance(1,2) {0} else {15} });
    }
    while reqs.len() < 8 && (reqs.is_empty() || g.chance(7,8)) {
        let mut sels = vec![gen_sel(g,&m)]; while sels.len() < 4 && g.chance(1,4) { sels.push(gen_sel(g,&m)); }
        reqs.push(Req { start: if g.chance(1,3) { 0 } else { g.below(m.els.len()) }, sels, rec: gen_rec(g,&m), inclusive: g.chance(1,3), spans: g.chance(1,2), via: g.below(16) });
    }
    SelCase { hist, reqs }
}
///Sizes beyond any recursion
#[derive(Serialize,Deserialize)] pub struct Big { width: usize, depth: usize, ty: String, inclusive: bool, #[serde(default)] spans: Vec<(usize,Vec<usize>)> }
///Spans far apart, over words far apart: (before which word the span stands, its words)
fn check_far(c: &Big, o: &mut Obs) -> Res {
    o.nontrivial(true); o.label("spans far apart"); let e = |e: FoliaError| e.to_string();
    let mut doc = Document::new("d",dump::make_props(&Props::bare(),false)).map_err(e)?;
    let s = doc.add_element_to(0,ElementData::new(ElementType::Sentence)).map_err(e)?; let mut spans = vec![]; let mut layers = vec![];
    let id = |i: usize| Attribute::Id(format!("w.{}",i)); let mut order = vec![];
    //(key, number of the span or word)
    for i in 0..=c.width {
        for (n,_) in c.spans.iter().enumerate().filter(|(_,x)| x.0.min(c.width) == i) { let l = doc.add_element_to(s,ElementData::new(ElementType::EntitiesLayer)).map_err(e)?; let x = doc.add_element_to(l,ElementData::new(ElementType::Entity).with_attrib(Attribute::Set("s".into())).with_attrib(Attribute::Class("c".into()))).map_err(e)?; spans.push((n,x)); layers.push(l); order.push((false,n)); }
        if i < c.width { doc.add_element_to(s,ElementData::new(ElementType::Word).with_attrib(id(i))).map_err(e)?; order.push((true,i)); }
    }
    let key = |n: usize| spans.iter().find(|x| x.0 == n).map(|x| x.1).unwrap();
    for (n,(_,words)) in c.spans.iter().enumerate() { for w in words { doc.add_element_to(key(n),ElementData::new(ElementType::WordReference).with_attrib(Attribute::Idref(format!("w.{}",w % c.width.max(1))))).map_err(e)?; } }
    for refs in [true] {
        let mut expected: Vec<ElementKey> = vec![]; let mut seen: std::collections::HashSet<usize> = Default::default();
        for (word,i) in order.iter() { if !*word { if seen.insert(*i) { expected.push(key(*i)); } } else if refs { for (n,(_,words)) in c.spans.iter().enumerate() { for w in words { if w % c.width == *i && seen.insert(n) { expected.push(key(n)); } } } } }
        let found: Vec<ElementKey> = doc.select_by_key(s,Selector::elements().element(Cmp::Is(ElementType::Entity)),Recursion::Always,false,refs).filter_map(|e| e.key()).collect();
        if found != expected { return Err(format!("entities selected among {} words{}: {:?} instead of {:?}",c.width,if refs {", with span references"} else {""},found,expected)); }
    }
    Ok(())
}
fn gen_far(g: &mut G) -> Big { let width = match g.below(8) { 0 => 66_000+g.below(8000), 1 => 10_000, 2|3 => 1000+g.below(2000), _ => 10+g.below(400) }; let mut spans = vec![]; while spans.len() < 12 && (spans.len() < 2 || g.chance(5,6)) { let mut v = vec![]; while v.is_empty() || (v.len() < 30 && g.chance(3,4)) { v.push(g.below(width)); } spans.push((if g.chance(1,3) { 0 } else if g.chance(1,2) { width } else { g.below(width) },v)); } Big { width, depth: 0, ty: String::new(), inclusive: false, spans } }
fn check_big(c: &Big, o: &mut Obs) -> Res {
    o.nontrivial(true); o.label(if c.depth > c.width {"deep"} else {"wide"});
    let mut doc = Document::new("d",dump::make_props(&Props::bare(),false)).map_err(|e| e.to_string())?;
    let mut expected = vec![]; let mut at = 0; let mut n = 0;
    for i in 0..c.depth { at = doc.add_element_to(at,ElementData::new(ElementType::Division)).map_err(|e| e.to_string())?; n += 1; if c.ty == "Division" { expected.push(Some(at)); } if i % 1000 == 7 { let k = doc.add_element_to(at,ElementData::new(ElementType::Head)).map_err(|e| e.to_string())?; n += 1; if c.ty == "Head" { expected.push(Some(k)); } } }
    for i in 0..c.width { let t = if i+1 == c.width { "Gap" } else { "Word" }; let k = doc.add_element_to(at,ElementData::new(et(t))).map_err(|e| e.to_string())?; n += 1; if c.ty == t { expected.push(Some(k)); } }
    let sel = || Selector::elements().element(Cmp::Is(et(&c.ty)));
    let mut found: Vec<_> = doc.select_by_key(0,sel(),Recursion::Always,c.inclusive,true).map(|e| e.key()).collect();
    if c.ty == "Division" || c.ty == "Head" { found.sort(); expected.sort(); }
    compare(&found,&expected,"selected in a large document")?;
    let all = doc.select(Selector::elements(),Recursion::Always).count(); if all != n { return Err(format!("{} elements selected of {}",all,n)); }
    let d = doc.select(sel(),Recursion::Always).count(); if d != expected.len() { return Err("another number without starting element".into()); }
    if let Some(e) = doc.get_element(at) { let n = e.ancestors(Selector::elements()).count(); if n != c.depth && c.depth > 0 { return Err(format!("{} ancestors instead of {}",n,c.depth)); } let n = e.ancestors(Selector::elements().element(Cmp::Is(ElementType::Text))).count(); if n != (c.depth > 0) as usize { return Err("the body is not found as ancestor".into()); } }
    Ok(())
}
fn gen_big(g: &mut G) -> Big { let (a,b) = *g.pick(&[(60_000,2),(3,9_000),(2_000,2_000),(20_000,50)]); let (x,y) = (g.below(50),g.below(50)); Big { width: a+x, depth: b+y, ty: (*g.pick(&["Gap","Word","Head","Division","Quote"])).into(), inclusive: g.chance(1,2), spans: vec![] } }
pub fn c08() -> Prop { Prop { id: "C08", rule: "a case is a document (loaded or built, then edited) with up to eight requests (starting element, union of selectors, recursion policy, flags); each request is asked through two functions of the interface; non-trivial: a request that selects at least two items; distinct by content", assumptions: &["the reference model's depth-first traversal states what is to be selected; a recursion policy is asked about the type of the element whose children are visited","inclusive selection from a detached element is a known finding and excluded"],
    subs: vec![sub("requests",12000,400000,gen08,check08), sub("large",24,200,gen_big,check_big), sub("spans far apart",200,4000,gen_far,check_far)] } }

// ---------------------------------------------------------------------------------------------- C09
#[derive(Clone,Debug,Serialize,Deserialize,Default)]
pub struct Q { #[serde(default)] pub ty: C<String>, #[serde(default)] pub group: C<String>, #[serde(default)] pub context: C<String>, #[serde(default)] pub set: C<String>, #[serde(default)] pub class: C<String>, #[serde(default)] pub subset: C<String>, #[serde(default)] pub proc: C<String>, #[serde(default)] pub annotator: C<String>, #[serde(default)] pub atype: C<String>, #[serde(default)] pub conf: C<String> }
#[derive(Serialize,Deserialize)] pub struct QCase { pub hist: Hist, pub queries: Vec<(usize,Q)> }
fn query(q: &Q) -> Query { let s = |x: &String| x.clone(); Query::select().element(q.ty.cmp(|t| et(t))).elementgroup(q.group.cmp(|x| group(x))).contexttype(q.context.cmp(|t| et(t))).set(q.set.cmp(s)).class(q.class.cmp(s)).subset(q.subset.cmp(s)).processor(q.proc.cmp(s)).annotator(q.annotator.cmp(s)).annotatortype(q.atype.cmp(|a| dump::ptype_of(a))).confidence(q.conf.cmp(|c| c.parse().unwrap())) }
fn vocabulary_type(q: &Q) -> Option<&'static str> { let s = if matches!(q.subset,C::Some|C::Is(_)) || q.context.given() { &q.context } else { &q.ty }; if let C::Is(t) = s { annotationtype(t) } else { None } }
///Everything but the vocabulary: set, class and subset are compared as they read
fn satisfies(m: &Model, q: &Q, k: K) -> bool {
    let e = &m.els[k]; let p = e.proc.map(|p| &m.procs[p].p);
    q.ty.ok(true,|t| t == e.ty) && q.group.ok(true,|g| in_group(g,e.ty)) && !matches!(q.ty,C::None) && !matches!(q.group,C::None)
    && q.set.ok(m.set(k).is_some(),|s| m.set(k) == Some(s)) && q.class.ok(e.class.is_some(),|c| e.class.as_deref() == Some(c)) && q.subset.ok(e.subset.is_some(),|c| e.subset.as_deref() == Some(c))
    && q.proc.ok(e.proc.is_some(),|x| p.map_or(false,|p| p.id == *x)) && q.annotator.ok(m.annotator(k).is_some(),|a| m.annotator(k) == Some(a)) && q.atype.ok(m.annotatortype(k).is_some(),|a| m.annotatortype(k) == Some(a))
    && q.conf.ok(m.attr(k,"CONFIDENCE").is_some(),|c| same_number(m.attr(k,"CONFIDENCE"),c))
}
fn check_query(w: &World, start: usize, q: &Q, o: &mut Obs) -> Res {
    let k = start % w.m.els.len(); let key = w.key(k); let m = &w.m;
    let at_ = vocabulary_type(q);
    let source_given = if matches!(q.subset,C::Some|C::Is(_)) || q.context.given() { q.context.given() } else { q.ty.given() };
    let refused = q.subset.given() && !(matches!(q.set,C::Is(_)|C::None) && source_given);
    let selector = match (Selector::from_query(&w.doc,&query(q)),refused) { (Ok(s),false) => s, (Err(_),true) => { o.label("refused: subset without vocabulary"); return Ok(()); }, (Ok(_),true) => return Err("a subset is asked for without its vocabulary, but the query is not refused".into()), (Err(e),false) => return Err(format!("query is refused: {}",e)) };
    let needs = q.class.given() || q.subset.given() || q.context.given();
    //set, class and subset are looked up in the vocabulary of the element (or context) type
    let complete = (!q.set.given() || at_.is_some()) && (!q.class.given() || matches!(q.set,C::Is(_)|C::None) && source_given) ;
    let in_vocabulary = |k: K| if q.set.given() || (matches!(q.set,C::None) && needs) { m.els[k].dec.map_or(false,|d| Some(m.decs[d].at.as_str()) == at_) } else { true };
    let expected: Vec<Option<ElementKey>> = selected(m,k,&|d| match d { MData::El(k)|MData::Span(k) => satisfies(m,q,*k) && in_vocabulary(*k), _ => false },&|_| true,false,true).iter().filter_map(|(d,..)| match d { MData::El(k)|MData::Span(k) => Some(Some(w.key(*k))), _ => None }).collect();
    let e = w.doc.get_element(key).ok_or("element gone")?;
    let found: Vec<_> = e.select(selector.clone(),Recursion::Always).map(|e| e.key()).collect();
    if complete { compare(&found,&expected,&format!("query {:?} from element {}",q,key))?; o.label("exact"); } else { o.label("set or class without its vocabulary"); if let Some(f) = found.iter().find(|f| !expected.contains(f)) { return Err(format!("query {:?} selects {:?}, which does not satisfy it",q,f)); } }
    //data selection and the single matcher agree
    let data: Vec<_> = w.doc.select_data_by_key(key,selector.clone(),Recursion::Always,false,true).map(|i| match &*i { DataType::Element(k)|DataType::SpanReference(k) => Some(*k), _ => None }).collect();
    compare(&data,&found,"data selected by the query")?;
    for k in 0..m.els.len() { let hit = selector.matches(&w.doc,&DataType::Element(w.key(k))); let ex = satisfies(m,q,k) && in_vocabulary(k); if (complete && hit != ex) || (hit && !ex) { return Err(format!("query {:?}: element {} ({}) {}",q,w.key(k),m.els[k].ty,if hit {"matches, but does not satisfy it"} else {"satisfies it, but does not match"})); } }
    o.add(m.els.len() as u64);
    let n = [q.ty.given(),q.group.given(),q.set.given(),q.class.given(),q.subset.given(),q.proc.given(),q.annotator.given(),q.atype.given(),q.conf.given()]; for (i,n) in n.iter().enumerate() { if *n { o.label(&format!("{} asked for{}",["type","group","set","class","subset","processor","annotator","annotator type","confidence"][i],if expected.is_empty() {""} else {", found"})) } }
    if !expected.is_empty() { o.nontrivial(true); }
    //shortcuts
    if q.context == C::Any && q.class == C::Any && q.subset == C::Any && q.proc == C::Any && q.annotator == C::Any && q.atype == C::Any && q.conf == C::Any && q.group == C::Any { if let C::Is(t) = &q.ty {
        o.label("shortcuts"); let set = || q.set.cmp(|s| s.clone());
        for r in [Recursion::Always,Recursion::No] {
            let ex: Vec<_> = if r == Recursion::Always { expected.clone() } else { selected(m,k,&|d| match d { MData::El(k)|MData::Span(k) => satisfies(m,q,*k) && in_vocabulary(*k), _ => false },&|_| false,false,true).iter().filter_map(|(d,..)| match d { MData::El(k)|MData::Span(k) => Some(Some(w.key(*k))), _ => None }).collect() };
            if complete { compare(&e.get_elements(et(t),set(),r.clone()).map(|e| e.key()).collect::<Vec<_>>(),&ex,"get_elements")?;
            compare(&e.get_element(et(t),set(),r.clone()).map(|e| e.key()).into_iter().collect::<Vec<_>>(),&ex.iter().take(1).cloned().collect::<Vec<_>>(),"get_element")?;
            if let Some(a) = annotationtype(t) { if spec().annotationtypes[a].elementtype.as_str() == t.as_str() {
                compare(&e.get_annotations(at(a),set(),r.clone()).map(|e| e.key()).collect::<Vec<_>>(),&ex,"get_annotations")?;
                compare(&e.get_annotation(at(a),set(),r.clone()).map(|e| e.key()).into_iter().collect::<Vec<_>>(),&ex.iter().take(1).cloned().collect::<Vec<_>>(),"get_annotation")?; } } }
        }
    } }
    Ok(())
}
fn check09(c: &QCase, o: &mut Obs) -> Res { let mut o2 = Obs::default(); let w = perform(&c.hist,&mut o2,&mut |_,_,_| Ok(()))?; for (s,q) in c.queries.iter() { check_query(&w,*s,q,o)?; }
    //unions of queries: what either selects
    for p in c.queries.windows(2) { if let (Ok(a),Ok(b)) = (Selector::from_query(&w.doc,&query(&p[0].1)),Selector::from_query(&w.doc,&query(&p[1].1))) {
        let either = |k: K| { let d = DataType::Element(w.key(k)); a.matches(&w.doc,&d) || b.matches(&w.doc,&d) };
        let k = p[0].0 % w.m.els.len(); let u = a.clone().and(b.clone()); o.label("union of queries");
        let expected: Vec<Option<ElementKey>> = selected(&w.m,k,&|d| match d { MData::El(k)|MData::Span(k) => either(*k), _ => false },&|_| true,false,true).iter().filter_map(|(d,..)| match d { MData::El(k)|MData::Span(k) => Some(Some(w.key(*k))), _ => None }).collect();
        let found: Vec<_> = w.doc.get_element(w.key(k)).ok_or("element gone")?.select(u,Recursion::Always).map(|e| e.key()).collect();
        compare(&found,&expected,&format!("union of {:?} and {:?} from element {}",p[0].1,p[1].1,w.key(k)))?;
    } }
    Ok(()) }
fn crit_or(g: &mut G, v: Option<String>, unknown: &[&str]) -> C<String> { match g.below(10) { 0 => C::Some, 1 => C::None, 2 if g.chance(1,4) => C::Never, 3 => C::Is(match &v { Some(s) if !["Structure","auto","0.5"].contains(&unknown[0]) && g.chance(1,2) => gen::near(g,s), _ => (*g.pick(unknown)).into() }), _ => match v { Some(v) => C::Is(v), None => if g.chance(1,2) { C::None } else { C::Is((*g.pick(unknown)).into()) } } } }
fn gen_query(g: &mut G, m: &Model) -> Q {
    let mut q = Q::default();
    //built around an element of the document, so that it often matches
    let cands: Vec<K> = (0..m.els.len()).filter(|k| m.els[*k].dec.is_some()).collect();
    let sure: Vec<K> = (0..m.els.len()).filter(|k| m.attr(*k,"CONFIDENCE").is_some()).collect();
    let k = if !sure.is_empty() && g.chance(1,6) { *g.pick(&sure) } else if !cands.is_empty() && g.chance(3,4) { *g.pick(&cands) } else { g.below(m.els.len()) }; let e = &m.els[k];
    let feature = e.ty == "Feature";
    if g.chance(3,4) { q.ty = if g.chance(1,12) { match g.below(3) { 0 => C::Some, 1 => C::None, _ => C::Is((*g.pick(gen::alltypes())).into()) } } else { C::Is(e.ty.into()) }; }
    if g.chance(1,6) { let gs: Vec<&str> = groups().into_iter().filter(|x| in_group(x,e.ty)).collect(); q.group = if gs.is_empty() || g.chance(1,5) { let x = (*g.pick(&groups())).to_string(); crit_or(g,Some(x),&["Structure"]) } else { C::Is((*g.pick(&gs)).to_string()) }; }
    if feature { if g.chance(7,8) { q.context = e.parent.map_or(C::Any,|p| C::Is(m.els[p].ty.into())); } if g.chance(3,4) { q.subset = crit_or(g,e.subset.clone(),&["unknown","sub1"]); } }
    else if g.chance(1,16) { q.subset = if g.chance(1,2) { C::None } else { C::Some }; }
    if !(q.ty == C::Is("Feature".into()) || matches!(q.subset,C::Is(_)|C::Some)) { q.context = C::Any; }
    if g.chance(2,3) { q.set = crit_or(g,m.set(k).map(|s| s.to_string()),&["unknown","set-a","set-b"]); }
    //a class of the element, or one that others of its set have: a class of a feature is another matter than a class of an ordinary element
    if g.chance(1,3) { q.class = if g.chance(1,5) { let other: Vec<&String> = m.els.iter().enumerate().filter(|(x,y)| (y.ty == "Feature") != feature && m.set(*x) == m.set(k)).filter_map(|(_,y)| y.class.as_ref()).collect(); if other.is_empty() { C::Any } else { C::Is((*g.pick(&other)).clone()) } } else { crit_or(g,e.class.clone(),&["unknown","N","current"]) }; }
    if g.chance(1,5) { q.proc = crit_or(g,m.proc_id(k).map(|s| s.to_string()),&["unknown","proc.1"]); }
    if g.chance(1,8) { q.annotator = crit_or(g,m.annotator(k).map(|s| s.to_string()),&["unknown","name0"]); }
    if g.chance(1,8) { q.atype = crit_or(g,m.annotatortype(k).map(|s| s.to_string()),&["auto","manual"]); }
    if g.chance(1,8) { q.conf = crit_or(g,m.attr(k,"CONFIDENCE").map(|s| s.to_string()),&["0.5","0.123"]); }
    q
}
fn gen09(g: &mut G) -> QCase { let (hist,m) = if g.chance(1,2) { some_world(g) } else { let h = hist(g,&Profile { ops: vec![(6,"inline"),(4,"feature"),(2,"span"),(1,"declare"),(1,"processor"),(1,"activate"),(1,"class"),(1,"vocabulary")], load: 5, wrong: 0, bad: 0, ..Default::default() }); let m = model_of(&h); (h,m) }; let mut queries = vec![]; while queries.len() < 10 && (queries.is_empty() || g.chance(9,10)) { let s = if g.chance(1,2) {0} else {g.below(m.els.len())}; queries.push((s,gen_query(g,&m))); } QCase { hist, queries } }
///Queries over sets with many classes, subsets and classes for features
fn gen_vocabulary(g: &mut G) -> QCase {
    let n = *g.pick(&[30usize,60,130,260,400]); let k = *g.pick(&[1usize,3,70,1000]); let first = g.below(3)*100; let late = g.chance(1,2);
    let mut s = El::new("Sentence"); for i in 0..n { let c = format!("c{}",first+if late {i} else {n-i}); let mut p = El::new(*g.pick(&["PosAnnotation","PosAnnotation","LemmaAnnotation","SenseAnnotation"])).a("SET",*g.pick(&["set-a","set-a","set-a","set-b"])).a("CLASS",&c);
        if g.chance(2,3) { p = p.c(El::new("Feature").a("SUBSET",&format!("s{}",i%k)).a("CLASS",&format!("f{}",i))); } s = s.c(El::new("Word").c(p)); }
    let hist = Hist { start: Start::New { id: "doc".into(), speech: false, props: crate::hist::props(g) }, ops: vec![Op::AddTo { to: 0, el: s }] }; let m = model_of(&hist);
    let mut queries = vec![]; while queries.len() < 10 { queries.push((0,gen_query(g,&m))); } QCase { hist, queries }
}
///Comparisons by themselves
#[derive(Serialize,Deserialize)] pub struct Compared { cmp: C<String>, v: Option<String>, dead: bool }
fn compared(g: &mut G) -> Compared { let v = if g.chance(1,4) { None } else { Some(gen::value(g)) }; let w = match g.below(4) { 0|1 => v.clone().unwrap_or_default(), 2 => gen::near(g,v.as_deref().unwrap_or("")), _ => gen::value(g) }; Compared { cmp: match g.below(4) { 0 => C::Any, 1 => C::Some, 2 => C::None, _ => C::Is(w) }, v, dead: g.chance(1,8) } }
fn check_compared(c: &Compared, o: &mut Obs) -> Res {
    let x: Cmp<String> = if c.dead { Cmp::Unmatchable } else { c.cmp.cmp(|s| s.clone()) };
    let want = !c.dead && match &c.cmp { C::Any => true, C::Some => c.v.is_some(), C::None => c.v.is_none(), C::Is(w) => c.v.as_ref() == Some(w), C::Never => false };
    o.nontrivial(!matches!(c.cmp,C::Any) && !c.dead); if x.matches(c.v.as_ref()) != want { return Err(format!("{:?} matches {:?}: {}",x,c.v,!want)); } Ok(())
}
pub fn c09() -> Prop { Prop { id: "C09", rule: "a case is a document (loaded or built, then edited) with up to ten queries; each is compiled, selected from an element, and matched against every element; non-trivial: a query that selects something; distinct by content", assumptions: &["the criteria are evaluated on the reference model","a set is asked for together with the element (or context) type it is for, and a class or subset together with its set; for other queries only what is selected wrongly is reported (known finding)"],
    subs: vec![sub("queries",12000,400000,gen09,check09), sub("large vocabularies",300,6000,gen_vocabulary,check09), sub("comparisons",2000,20000,compared,check_compared)] } }

// ---------------------------------------------------------------------------------------------- C10
#[derive(Clone,Debug,Serialize,Deserialize)]
pub struct Anc { pub start: usize, pub sels: Vec<Sel>, pub others: Vec<usize>, pub ty: String, pub group: String, pub set: C<String> }
#[derive(Serialize,Deserialize)] pub struct AncCase { pub hist: Hist, pub reqs: Vec<Anc> }
fn check10(c: &AncCase, o: &mut Obs) -> Res {
    let mut o2 = Obs::default(); let w = perform(&c.hist,&mut o2,&mut |_,_,_| Ok(()))?; let m = &w.m;
    for r in c.reqs.iter() {
        let k = r.start % m.els.len(); let key = w.key(k); let e = w.doc.get_element(key).ok_or("element gone")?;
        let hits = |k: K| -> Vec<ElementKey> { m.ancestors(k).into_iter().filter(|a| meets(m,&r.sels,&MData::El(*a))).map(|a| w.key(a)).collect() };
        let ks = |i: AncestorIterator| -> Vec<ElementKey> { i.map(|e| e.key().unwrap_or(u32::MAX)).collect() };
        compare(&ks(e.ancestors(union(&w,&r.sels))),&hits(k),"ancestors")?; compare(&ks(w.doc.ancestors_by_key(key,union(&w,&r.sels))),&hits(k),"ancestors_by_key")?;
        //common ancestors
        let mut list = vec![key]; let mut mk = vec![k]; for x in r.others.iter() { if *x >= 10_000 { list.push(ABSENT+*x as u32); } else { let x = x % m.els.len(); list.push(w.key(x)); mk.push(x); } }
        let ex: Vec<ElementKey> = hits(k).into_iter().filter(|a| mk.iter().all(|x| hits(*x).contains(a))).collect();
        compare(&w.doc.common_ancestors(union(&w,&r.sels),&list),&ex,"common ancestors")?;
        let mut rev = list.clone(); rev.reverse(); compare(&w.doc.common_ancestors(union(&w,&r.sels),&rev),&ex,"common ancestors in another order")?;
        if w.doc.common_ancestors(union(&w,&r.sels),&[]) != Vec::<ElementKey>::new() { return Err("common ancestors of nothing".into()); }
        //shortcuts
        let in_set = |a: K, own: bool| r.set.ok(m.set(a).is_some(),|s| own && m.set(a) == Some(s) && annotationtype(m.els[a].ty).is_some());
        let by_type: Vec<ElementKey> = m.ancestors(k).into_iter().filter(|a| m.els[*a].ty == r.ty && in_set(*a,true)).map(|a| w.key(a)).collect();
        let set = || r.set.cmp(|s| s.clone());
        compare(&ks(e.get_ancestors(et(&r.ty),set())),&by_type,"ancestors by type")?;
        if e.get_ancestor(et(&r.ty),set()).map(|e| e.key().unwrap_or(u32::MAX)) != by_type.first().cloned() { return Err(format!("get_ancestor({}) is not the nearest",r.ty)); }
        if !r.set.given() {
            let by_group: Vec<ElementKey> = m.ancestors(k).into_iter().filter(|a| in_group(&r.group,m.els[*a].ty) && in_set(*a,false)).map(|a| w.key(a)).collect();
            compare(&ks(e.get_ancestors_by_group(group(&r.group),set())),&by_group,"ancestors by group")?;
            if e.get_ancestor_by_group(group(&r.group),set()).map(|e| e.key().unwrap_or(u32::MAX)) != by_group.first().cloned() { return Err(format!("get_ancestor_by_group({}) is not the nearest",r.group)); }
        }
        let p = m.els[k].parent; if e.get_parent().map(|e| e.key()) != p.map(|p| Some(w.key(p))) { return Err("get_parent is wrong".into()); }
        if e.parent_key() != p.map(|p| w.key(p)) { return Err("parent_key is wrong".into()); }
        let i = p.and_then(|p| m.els[p].data.iter().position(|d| *d == MData::El(k))); if e.get_index() != i { return Err(format!("get_index gives {:?} instead of {:?}",e.get_index(),i)); }
        o.add(1); o.label(match m.ancestors(k).len() { 0 => "no ancestors", 1..=2 => "1-2 ancestors", 3..=5 => "3-5 ancestors", _ => "more than 5 ancestors" }); o.label(match ex.len() { 0 => "no common ancestors", 1 => "1 common ancestor", _ => "several common ancestors" });
        if m.ancestors(k).len() > 1 { o.nontrivial(true); }
    }
    Ok(())
}
fn gen10(g: &mut G) -> AncCase {
    let (hist,m) = some_world(g); let mut reqs = vec![];
    while reqs.len() < 10 && (reqs.is_empty() || g.chance(9,10)) {
        let mut sels = vec![if g.chance(1,2) { Sel::default() } else { gen_sel(g,&m) }]; while sels.len() < 3 && g.chance(1,5) { sels.push(gen_sel(g,&m)); }
        //deep elements more often
        let start = (0..3).map(|_| g.below(m.els.len())).max_by_key(|k| m.ancestors(*k).len()).unwrap();
        let mut others = vec![]; while others.len() < 4 && g.chance(2,3) { others.push(if g.chance(1,20) { 10_000+g.below(10) } else { g.below(m.els.len()) }); }
        let anc = m.ancestors(start); let (ty,set) = if anc.is_empty() || g.chance(1,6) { ((*g.pick(gen::alltypes())).to_string(),C::Any) } else { let a = *g.pick(&anc); (m.els[a].ty.to_string(), if g.chance(1,2) { C::Any } else { crit_or(g,m.set(a).map(|s| s.to_string()),&["unknown","set-a"]) }) };
        reqs.push(Anc { start, sels, others, ty, group: (*g.pick(&groups())).into(), set });
    }
    AncCase { hist, reqs }
}
pub fn c10() -> Prop { Prop { id: "C10", rule: "a case is a document (loaded or built, then edited) with up to ten requests (element, union of selectors, further elements); non-trivial: an element with at least two ancestors; distinct by content", assumptions: &["the parent chain of the reference model states what the ancestors are","a set is asked for together with an element type (known finding for groups)"],
    subs: vec![sub("requests",12000,400000,gen10,check10)] } }
