//! Histories: sequences of operations, performed on a document through the library's interface and on the
//! reference model side by side, with the complete state compared after every operation.
use crate::{doc::*,engine::*,gen,model::*,dump::*,spec::*,xmlw};
use folia::*;
use serde::{Serialize,Deserialize};
use std::collections::HashMap;

#[derive(Clone,Debug,Serialize,Deserialize)]
pub enum Start { New { id: String, speech: bool, props: Props }, Load { doc: Doc, props: Props } }
///Elements and processors are referred to by the model's keys; keys that do not exist (yet) are allowed
#[derive(Clone,Debug,Serialize,Deserialize)]
pub enum Op {
    AddTo { to: K, el: El }, Annotate { to: K, el: El }, AnnotateSpan { el: El }, Orphan { el: El },
    Attach { to: K, what: K }, Detach { what: K },
    Declare { at: String, set: Option<String>, alias: Option<String>, format: Option<String> }, AddClass { dec: usize, class: String },
    ///properties applied to an existing document, a declaration added as such, a value added to the vocabulary for features
    Properties { props: Props }, AddDeclaration { at: String, set: Option<String>, alias: Option<String>, format: Option<String> }, AddFeatureValue { dec: usize, subset: bool, value: String },
    ///many classes, subsets or classes for features at once: what comes after them has high keys
    Bulk { dec: usize, what: usize, n: usize },
    Processor { p: Proc, #[serde(default)] with: Vec<usize> }, Subprocessor { to: usize, p: Proc, #[serde(default)] with: Vec<usize> }, AttachProcessor { to: usize, what: usize }, Provenance { p: Proc, #[serde(default)] with: Vec<usize> }, Activate { what: usize },
}
#[derive(Clone,Debug,Serialize,Deserialize)]
pub struct Hist { pub start: Start, pub ops: Vec<Op> }

pub struct World { pub doc: Document, pub m: Model, ///library key of each element of the model
    pub keys: Vec<ElementKey>, pub procs: Vec<ProcKey> }

pub const ABSENT: u32 = 1_000_000;
pub fn opname(o: &Op) -> &'static str { match o { Op::Bulk {..} => "add many classes", Op::AddTo {..} => "add", Op::Annotate {..} => "annotate", Op::AnnotateSpan {..} => "annotate span", Op::Orphan {..} => "add orphan", Op::Attach {..} => "attach", Op::Detach {..} => "detach", Op::Declare {..} => "declare", Op::AddClass {..} => "add class", Op::Properties {..} => "apply properties", Op::AddDeclaration {..} => "add declaration", Op::AddFeatureValue {..} => "add feature value", Op::Processor {..} => "processor", Op::Subprocessor {..} => "subprocessor", Op::AttachProcessor {..} => "attach processor", Op::Provenance {..} => "provenance", Op::Activate {..} => "activate" } }
impl World {
    pub fn start(s: &Start) -> Result<World,String> {
        let (doc,m) = match s {
            Start::New { id, speech, props } => (Document::new(id,make_props(props,*speech)).map_err(|e| format!("a new document is refused: {}",e))?,Model::new(id,*speech,props)?),
            Start::Load { doc, props } => (Document::from_str(&xmlw::plain(doc),make_props(props,false)).map_err(|e| format!("a valid document is refused: {}",e))?,Model::load(doc,props)?),
        };
        let mut w = World { doc, m, keys: vec![], procs: vec![] };
        w.compare().map_err(|e| format!("at the start: {}",e))?;
        Ok(w)
    }
    pub fn key(&self, k: K) -> ElementKey { self.keys.get(k).cloned().unwrap_or_else(|| ABSENT+k as u32) }
    pub fn pkey(&self, k: usize) -> ProcKey { self.procs.get(k).cloned().unwrap_or_else(|| 20_000+(k%1000) as u16) }
    ///Performs the operation on both sides; gives whether it was accepted
    pub fn apply(&mut self, op: &Op) -> Result<bool,String> {
        let (lib, model): (Result<Option<ElementKey>,String>, R<Option<K>>) = match op {
            Op::AddTo { to, el } => (self.doc.add_element_to(self.key(*to),make(el)).map(Some).map_err(|e| e.to_string()), self.m.add_element_to(*to,el).map(Some)),
            Op::Annotate { to, el } => (self.doc.annotate(self.key(*to),make(el)).map(Some).map_err(|e| e.to_string()), self.m.annotate(*to,el).map(Some)),
            Op::AnnotateSpan { el } => (self.doc.annotate_span(make(el)).map(Some).map_err(|e| e.to_string()), self.m.annotate_span(el).map(Some)),
            Op::Orphan { el } => (self.doc.add_element(make(el)).map(Some).map_err(|e| e.to_string()), self.m.add_element(el).map(Some)),
            Op::Attach { to, what } => (self.doc.attach_element(self.key(*to),self.key(*what)).map(|_| None).map_err(|e| e.to_string()), self.m.attach(*to,*what).map(|_| None)),
            Op::Detach { what } => (self.doc.detach_element(self.key(*what)).map(|_| None).map_err(|e| e.to_string()), self.m.detach(*what).map(|_| None)),
            Op::Declare { at, set, alias, format } => {
                let l = self.doc.declare(crate::spec::at(at),set,alias,format).map_err(|e| e.to_string()); let m = self.m.declare(at,set.as_deref(),alias.as_deref(),format.as_deref());
                match l { Ok(k) => { let d = self.doc.get_declaration(k).ok_or("declare() gives a key that does not exist")?; if at_name(d.annotationtype) != self.m.decs[m].at || d.set != self.m.decs[m].set { return Err(format!("declare() gives the declaration of {} with set {:?}, not {} with set {:?}",at_name(d.annotationtype),d.set,self.m.decs[m].at,self.m.decs[m].set)); } (Ok(None),Ok(None)) }, Err(e) => (Err(e),Ok(None)) }
            }
            Op::Properties { props } => (self.doc.apply_properties(make_props(props,false)).map(|_| None).map_err(|e| e.to_string()), self.m.apply_props(props).map(|_| None)),
            Op::AddDeclaration { at, set, alias, format } => {
                let k = self.doc.add_declaration(Declaration::new(crate::spec::at(at),set.clone(),alias.clone(),format.clone())).map_err(|e| format!("add_declaration: {}",e))?; let m = self.m.add_declaration(at,set.as_deref(),alias.as_deref(),format.as_deref());
                let d = self.doc.get_declaration(k).ok_or("add_declaration() gives a key that does not exist")?; if at_name(d.annotationtype) != self.m.decs[m].at || d.set != self.m.decs[m].set { return Err(format!("add_declaration() gives the declaration of {} with set {:?}, not {} with set {:?}",at_name(d.annotationtype),d.set,at,set)); }
                (Ok(None),Ok(None))
            }
            Op::AddFeatureValue { dec, subset, value } => match self.m.decs.get_mut(*dec) {
                Some(d) => {
                    let l = self.doc.get_mut_declaration_by_id(&Declaration::index_id(crate::spec::at(&d.at),&d.set.as_deref())).ok_or_else(|| format!("the declaration of {} with set {:?} is not found",d.at,d.set))?;
                    let v = if *subset { &mut d.subsets } else { &mut d.subclasses }; if !v.contains(value) { v.push(value.clone()) }
                    let got = if *subset { let k = l.add_subset(std::borrow::Cow::Borrowed(value)).map_err(|e| e.to_string())?; l.get_subset(k) } else { let k = l.add_subclass(std::borrow::Cow::Borrowed(value)).map_err(|e| e.to_string())?; l.get_subclass(k) };
                    if got != Some(value.as_str()) { return Err(format!("the key given for feature value {:?} denotes {:?}",value,got)); }
                    (Ok(None),Ok(None))
                }
                None => (Ok(None),Ok(None)),
            },
            Op::Bulk { dec, what, n } => {
                if let Some(d) = self.m.decs.get(*dec) { let l = self.doc.get_mut_declaration_by_id(&Declaration::index_id(crate::spec::at(&d.at),&d.set.as_deref())).ok_or_else(|| format!("the declaration of {} with set {:?} is not found",d.at,d.set))?;
                    for i in 0..*n { let v = bulk(i); match what { 0 => l.add_class(v.into()).map(|_| ()), 1 => l.add_subset(v.into()).map(|_| ()), _ => l.add_subclass(v.into()).map(|_| ()) }.map_err(|e| e.to_string())?; } }
                model_apply(&mut self.m,op); (Ok(None),Ok(None))
            }
            Op::AddClass { dec, class } => {
                let key = match self.m.decs.get(*dec) { Some(d) => self.doc.get_declaration_key_by_id(&Declaration::index_id(crate::spec::at(&d.at),&d.set.as_deref())).ok_or_else(|| format!("the declaration of {} with set {:?} is not found",d.at,d.set))?, None => 20_000 };
                (self.doc.add_class(key,class).map(|_| None).map_err(|e| e.to_string()), match self.m.decs.get_mut(*dec) { Some(d) => { if !d.classes.contains(class) { d.classes.push(class.clone()) } Ok(None) }, None => Err("no declaration".into()) })
            }
            Op::Processor { p, with } => { let q = self.with_procs(p,with); self.proc_op(|d| d.add_processor(q),|m| m.add_processor_with(p,with))? },
            Op::Subprocessor { to, p, with } => { let k = self.pkey(*to); let q = self.with_procs(p,with); self.proc_op(|d| d.add_subprocessor(k,q),|m| m.add_subprocessor_with(*to,p,with))? }
            Op::Provenance { p, with } => { let q = self.with_procs(p,with); self.proc_op(|d| d.add_provenance(q),|m| m.add_provenance(p,with))? },
            Op::AttachProcessor { to, what } => (self.doc.attach_processor(self.pkey(*to),self.pkey(*what)).map(|_| None).map_err(|e| e.to_string()), self.m.attach_processor(*to,*what).map(|_| None)),
            Op::Activate { what } => { if *what < self.m.procs.len() { self.doc.activate_processor(self.pkey(*what)); self.m.active = Some(*what); } (Ok(None),Ok(None)) }
        };
        match (&lib,&model) {
            (Ok(_),Err(e)) => return Err(format!("{}: accepted, but should be refused ({})",opname(op),e)),
            (Err(e),Ok(_)) => return Err(format!("{}: refused ({}), but should be accepted",opname(op),e)),
            _ => {}
        }
        self.compare().map_err(|e| format!("after {}{}: {}",opname(op),if lib.is_ok() {""} else {" (refused)"},e))?;
        if let (Ok(Some(l)),Ok(Some(k))) = (&lib,&model) { if self.keys.get(*k) != Some(l) { return Err(format!("{}: gives key {} for the element under key {:?}",opname(op),l,self.keys.get(*k))); } }
        Ok(lib.is_ok())
    }
    fn with_procs(&self, p: &Proc, with: &[usize]) -> Processor { let mut q = make_proc(p); for k in with { q = q.with_existing_subprocessor(self.pkey(*k)); } q }
    fn proc_op(&mut self, l: impl FnOnce(&mut Document)->Result<ProcKey,FoliaError>, f: impl FnOnce(&mut Model)->R<usize>) -> Result<(Result<Option<ElementKey>,String>, R<Option<K>>),String> {
        let lib = l(&mut self.doc); let model = f(&mut self.m);
        if let (Ok(k),Ok(m)) = (&lib,&model) { let id = &self.m.procs[*m].p.id; if self.doc.get_processor(*k).map(|p| &p.id) != Some(id) { return Err(format!("the key of processor {} denotes {:?}",id,self.doc.get_processor(*k).map(|p| &p.id))); } }
        Ok((lib.map(|_| None).map_err(|e| e.to_string()),model.map(|_| None)))
    }
    ///Compares the complete state
    pub fn compare(&mut self) -> Res {
        let rl = roots(&self.doc); let rm = self.m.roots();
        let (dl,kl) = dump(&self.doc,&rl)?; let (dm,km) = dump_model(&self.m,&rm);
        if let Some(d) = diff(&dl,&dm) { return Err(d); }
        if kl.len() != km.len() || kl.len() != n_elements(&self.doc) { return Err(format!("{} elements reachable of {} in the store, {} expected",kl.len(),n_elements(&self.doc),km.len())); }
        let mut keys = vec![u32::MAX; self.m.els.len()];
        for (l,m) in kl.iter().zip(km.iter()) { keys[*m] = *l; }
        for (i,k) in self.keys.iter().enumerate() { if keys[i] != *k { return Err(format!("key {} no longer denotes its element ({}), which now has key {}",k,self.m.els[i].ty,keys[i])); } }
        self.keys = keys;
        //the ways to get at an element agree
        for (i,k) in self.keys.iter().enumerate() {
            let s = <Document as Store<ElementData,ElementKey>>::get(&self.doc,*k).ok_or_else(|| format!("key {} gives no element",k))?; let e = self.doc.get_element(*k).ok_or_else(|| format!("key {} gives no element",k))?;
            if s.key() != Some(*k) || e.key() != Some(*k) { return Err(format!("the element under key {} says its key is {:?} and {:?}",k,s.key(),e.key())); }
            if <Document as Store<ElementData,ElementKey>>::get_key(&self.doc,s) != s.id().map(|_| *k) { return Err(format!("the key of element {} is looked up as {:?}",k,<Document as Store<ElementData,ElementKey>>::get_key(&self.doc,s))); }
            let other = self.keys[(i*7+3) % self.keys.len()]; let f = self.doc.get_element(other).ok_or("element gone")?;
            if (e == f) != (other == *k) || !(e == self.doc.get_element(*k).ok_or("element gone")?) { return Err(format!("elements {} and {} are {}equal",k,other,if e == f {""} else {"not "})); }
        }
        for k in [self.keys.len() as ElementKey,ABSENT] { if !self.keys.contains(&k) && (self.doc.get_element(k).is_some() || <Document as Store<ElementData,ElementKey>>::get(&self.doc,k).is_some()) { return Err(format!("key {} was never given, but gives an element",k)); } }
        //identifiers
        for (id,k) in self.m.ids.iter() {
            if self.doc.get_element_key_by_id(id) != Some(self.keys[*k]) { return Err(format!("identifier {:?} resolves to key {:?}, its element has key {}",id,self.doc.get_element_key_by_id(id),self.keys[*k])); }
            { type S = Document; let k = self.keys[*k]; let a = <S as Store<ElementData,ElementKey>>::id_to_key(&self.doc,id); let b = <S as Store<ElementData,ElementKey>>::get_by_id(&self.doc,id).and_then(|e| e.key()); let c = <S as Store<ElementData,ElementKey>>::get_mut_by_id(&mut self.doc,id).and_then(|e| e.key());
              if (a,b,c) != (Some(k),Some(k),Some(k)) { return Err(format!("identifier {:?} of element {} gives {:?}, {:?} and {:?}",id,k,a,b,c)); } }
            match self.doc.get_element_by_id(id) { Some(e) if e.id() == Some(id.as_str()) && e.key() == Some(self.keys[*k]) => {}, e => return Err(format!("identifier {:?} gives element {:?}",id,e.map(|e| (e.key(),e.id().map(|s| s.to_string()))))) }
        }
        let ids = <Document as Store<ElementData,ElementKey>>::index(&self.doc).len();
        if ids != self.m.ids.len() { return Err(format!("{} identifiers are known, {} were given",ids,self.m.ids.len())); }
        //declarations and their vocabularies
        for (i,d) in self.m.decs.iter().enumerate() {
            let id = Declaration::index_id(at(&d.at),&d.set.as_deref());
            let k = self.doc.get_declaration_key_by_id(&id).ok_or_else(|| format!("declaration {} is not found",id))?;
            let l = self.doc.get_declaration(k).ok_or("no such declaration")?;
            if l.annotationtype != at(&d.at) || l.set != d.set { return Err(format!("declaration {} (number {}) is found as {}, set {:?}",id,i,at_name(l.annotationtype),l.set)); }
            if self.doc.get_declaration_by_id(&id).map(|x| x as *const Declaration) != Some(l as *const Declaration) { return Err(format!("declaration {} by identifier is another one",id)); }
            if self.doc.declarationstore.get_default_key(at(&d.at)) != if self.m.default_dec(&d.at) == Some(i) { Some(k) } else { None } { return Err(format!("the default of {} is {:?}; {} has key {}",d.at,self.doc.declarationstore.get_default_key(at(&d.at)),id,k)); }
            { let want = if d.procs.len() == 1 { Some(self.m.procs[d.procs[0]].p.id.as_str()) } else { None }; let got = l.default_processor().and_then(|p| self.doc.get_processor(p)).map(|p| p.id.as_str()); if got != want { return Err(format!("the default processor of {} is {:?} instead of {:?}",id,got,want)); } }
            if <Document as Store<Declaration,DecKey>>::get_key(&self.doc,l) != Some(k) { return Err(format!("the key of declaration {} is looked up as {:?}",id,<Document as Store<Declaration,DecKey>>::get_key(&self.doc,l))); }
            if l.key != Some(k) { return Err(format!("declaration {} under key {} says its key is {:?}",id,k,l.key)); }
            vocabulary(&d.classes,l.classes.as_ref().map(|s| s as &dyn Vocabulary),"class",&id,&|c| l.class_key(c).map(|k| k as usize),&|k| l.get_class(k as ClassKey).map(|s| s.to_string()))?;
            vocabulary(&d.subclasses,l.subclasses.as_ref().map(|s| s as &dyn Vocabulary),"feature class",&id,&|c| l.subclass_key(c).map(|k| k as usize),&|k| l.get_subclass(k as ClassKey).map(|s| s.to_string()))?;
            vocabulary(&d.subsets,l.subsets.as_ref().map(|s| s as &dyn Vocabulary),"subset",&id,&|c| l.subset_key(c).map(|k| k as usize),&|k| l.get_subset(k as SubsetKey).map(|s| s.to_string()))?;
            let def = self.m.default_set(&d.at); if self.doc.get_default_set(at(&d.at)).map(|s| s.to_string()) != def { return Err(format!("default set of {} is {:?} instead of {:?}",d.at,self.doc.get_default_set(at(&d.at)),def)); }
        }
        for (i,d) in self.m.decs.iter().enumerate() {
            let id = Declaration::index_id(at(&d.at),&d.set.as_deref()); let k = self.doc.get_declaration_key_by_id(&id);
            let (a,b) = (k.and_then(|k| self.doc.get_mut_declaration(k)).and_then(|d| d.key),self.doc.get_mut_declaration_by_id(&id).and_then(|d| d.key)); if a != k || b != k { return Err(format!("declaration {} (number {}) with key {:?} gives {:?} and {:?}",id,i,k,a,b)); }
        }
        { let mask: Vec<bool> = self.doc.declarationstore.default_mask(); let n = mask.iter().filter(|x| **x).count(); let want = self.m.decs.iter().enumerate().filter(|(i,d)| self.m.default_dec(&d.at) == Some(*i)).count(); if n != want || mask.len() < self.m.decs.len() { return Err(format!("{} declarations are defaults, {} should be",n,want)); } }
        //processors that are not in the chain too
        let mut procs = vec![];
        for (i,p) in self.m.procs.iter().enumerate() {
            let k = self.doc.get_processor_key_by_id(&p.p.id).ok_or_else(|| format!("processor {} is not found",p.p.id))?;
            if let Some(o) = self.procs.get(i) { if *o != k { return Err(format!("processor {} had key {}, now {}",p.p.id,o,k)); } }
            let q = self.doc.get_processor(k).ok_or("no such processor")?;
            let parent = p.parent.map(|x| self.m.procs[x].p.id.clone()); let qparent = q.parent.and_then(|x| self.doc.get_processor(x)).map(|x| x.id.clone());
            if self.doc.get_processor_by_id(&p.p.id).and_then(|x| x.key) != Some(k) || q.key != Some(k) { return Err(format!("processor {} by identifier is another one",p.p.id)); }
            if q.id != p.p.id || parent != qparent { return Err(format!("processor {}: parent {:?} instead of {:?}",p.p.id,qparent,parent)); }
            procs.push(k);
        }
        for k in procs.iter() { let id = self.doc.get_processor(*k).map(|p| p.id.clone()).unwrap_or_default(); let (a,b) = (self.doc.get_mut_processor(*k).and_then(|p| p.key),self.doc.get_mut_processor_by_id(&id).and_then(|p| p.key)); if a != Some(*k) || b != Some(*k) { return Err(format!("processor {} with key {} gives {:?} and {:?}",id,k,a,b)); } }
        for id in ["never \u{1} used",""] { if !self.m.ids.contains_key(id) && (self.doc.get_element_by_id(id).is_some() || self.doc.get_element_key_by_id(id).is_some()) { return Err(format!("identifier {:?} was never given",id)); }
            if self.doc.get_declaration_by_id(id).is_some() || self.doc.get_processor_by_id(id).is_some() != self.m.procs.iter().any(|p| p.p.id == id) { return Err(format!("identifier {:?} of a declaration or processor was never given",id)); } }
        self.procs = procs;
        if <Document as Store<Processor,ProcKey>>::len(&self.doc) != self.m.procs.len() { return Err(format!("{} processors, {} expected",<Document as Store<Processor,ProcKey>>::len(&self.doc),self.m.procs.len())); }
        Ok(())
    }
}
trait Vocabulary { fn size(&self) -> usize; }
impl Vocabulary for ClassStore { fn size(&self) -> usize { StringStore::len(self) } }
impl Vocabulary for SubsetStore { fn size(&self) -> usize { StringStore::len(self) } }
fn vocabulary(expected: &Vec<String>, store: Option<&dyn Vocabulary>, what: &str, id: &str, key: &dyn Fn(&str)->Option<usize>, get: &dyn Fn(usize)->Option<String>) -> Res {
    let n = store.map_or(0,|s| s.size());
    if n != expected.len() { return Err(format!("declaration {} knows {} {}es, {} were used",id,n,what,expected.len())); }
    let mut seen = HashMap::new();
    for c in expected { match key(c) { None => return Err(format!("{} {:?} of declaration {} is not found",what,c,id)), Some(k) => {
        if get(k).as_deref() != Some(c) { return Err(format!("{} {:?} of declaration {} has key {}, which denotes {:?}",what,c,id,k,get(k))); }
        if let Some(o) = seen.insert(k,c) { return Err(format!("{} {:?} and {:?} of declaration {} share a key",what,o,c,id)); }
    } } }
    if key("never \u{1} used").is_some() || get(n).is_some() || get(n+77).is_some() { return Err(format!("declaration {} knows a {} that was never used",id,what)); }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ generation
///What a history is made of
#[derive(Clone)]
pub struct Profile { pub ops: Vec<(usize,&'static str)>, ///of 16: how often a target does not exist
    pub bad: usize, pub loose: bool, pub plain: bool, pub wordy: bool, pub load: usize, pub firm: bool, ///of 16: duplicate ids, wrong references
    pub wrong: usize, pub max: usize }
impl Default for Profile { fn default() -> Profile { Profile { ops: vec![(6,"add"),(5,"annotate"),(3,"span"),(1,"orphan"),(2,"attach"),(1,"detach"),(2,"declare"),(1,"class"),(1,"processor"),(1,"subprocessor"),(1,"attach processor"),(1,"provenance"),(1,"activate"),(1,"properties"),(1,"vocabulary")], bad: 1, loose: false, plain: false, wordy: true, load: 4, firm: false, wrong: 1, max: 14 } } }

pub fn all_procs(m: &Model) -> Vec<String> { m.procs.iter().map(|p| p.p.id.clone()).collect() }
fn wrefable(m: &Model, under: Option<K>) -> Vec<String> { let mut v: Vec<(K,String)> = m.ids.iter().filter(|(_,k)| ts(m.els[**k].ty).wrefable && under.map_or(true,|u| m.ancestors(**k).contains(&u))).map(|(i,k)| (*k,i.clone())).collect(); v.sort(); v.into_iter().map(|x| x.1).collect() }
pub fn hist(g: &mut G, p: &Profile) -> Hist {
    let plain = p.plain || g.chance(1,3);
    let o = gen::Opts { loose: p.loose && g.chance(1,2), plain, wordy: p.wordy, ids: 4, firm_features: p.firm, shortcuts: true, ..Default::default() };
    let start = if g.chance(p.load,8) {
        let s = g.size; g.size = 4+s/3; let doc = gen::doc(g,o.clone()); g.size = s; let mut props = if g.chance(1,3) { props(g) } else { Props::bare() }; if props.manual && Model::load(&doc,&props).is_err() { props.manual = false; } Start::Load { doc, props }
    } else { Start::New { id: "doc".into(), speech: g.chance(1,8), props: props(g) } };
    let mut m = match &start { Start::New { id, speech, props } => Model::new(id,*speech,props), Start::Load { doc, props } => Model::load(doc,props) }.expect("start of a history");
    let mut api = gen::Gen::new(g,gen::Opts { shortcuts: false, ..o },vec![]); api.prefix = "n".into();
    let mut np = 0; let mut ops = vec![];
    //words to annotate
    if let Start::New {..} = start { if p.wordy { let n = g.below(3); for _ in 0..n { api.budget = 3+g.size/4; let s = if m.els[0].ty == "Text" { api.sentence(g) } else { let mut u = El::new("Utterance"); for _ in 0..g.range(1,3) { u = u.c(api.word(g,"Word")); } u }; let mut s = s; gen::join(&mut s); gen::link(g,&mut s,&[],false); push(&mut m,&mut ops,Op::AddTo { to: 0, el: s }); } } }
    let total: usize = p.ops.iter().map(|x| x.0).sum();
    let n = g.range(1,p.max.min(2+g.size/2));
    for _ in 0..n {
        let mut x = g.below(total); let mut name = p.ops[0].1; for (w,n) in p.ops.iter() { if x < *w { name = n; break; } x -= w; }
        api.budget = 1+g.below(1+g.size/4); api.procs = all_procs(&m);
        if let Some(op) = op(g,p,&mut api,&m,name,&mut np) { push(&mut m,&mut ops,op); }
    }
    Hist { start, ops }
}
pub fn props(g: &mut G) -> Props {
    let mut p = if g.chance(1,2) { Props::default_() } else { Props::bare() };
    while p.declare.len() < 5 && g.chance(1,2) { let a = *g.pick(&["TOKEN","SENTENCE","POS","LEMMA","ENTITY","CHUNKING","TEXT","DEPENDENCY","PARAGRAPH","SEMROLE"]); let s = if g.chance(1,4) { None } else { let s = g.pick(gen::SETS).to_string(); Some(if g.chance(1,6) { gen::near(g,&s) } else { s }) }; p.declare.push((a.into(),s)); }
    if g.chance(1,3) { let mut n = 90; p.processor = Some(gen::proc(g,&mut n,false,2)); }
    p.manual = g.chance(1,6);
    p
}
fn push(m: &mut Model, ops: &mut Vec<Op>, op: Op) { model_apply(m,&op); ops.push(op); }
fn bulk(i: usize) -> String { format!("b{}",i) }
///Performs the operation on the model only
pub fn model_apply(m: &mut Model, op: &Op) {
    match op {
        Op::Properties { props } => { let _ = m.apply_props(props); } Op::AddDeclaration { at, set, alias, format } => { m.add_declaration(at,set.as_deref(),alias.as_deref(),format.as_deref()); }
        Op::AddFeatureValue { dec, subset, value } => if let Some(d) = m.decs.get_mut(*dec) { let v = if *subset { &mut d.subsets } else { &mut d.subclasses }; if !v.contains(value) { v.push(value.clone()) } }
        Op::Bulk { dec, what, n } => if let Some(d) = m.decs.get_mut(*dec) { let v = match what { 0 => &mut d.classes, 1 => &mut d.subsets, _ => &mut d.subclasses }; for i in 0..*n { let c = bulk(i); if !v.contains(&c) { v.push(c) } } }
        Op::AddTo { to, el } => { let _ = m.add_element_to(*to,el); } Op::Annotate { to, el } => { let _ = m.annotate(*to,el); } Op::AnnotateSpan { el } => { let _ = m.annotate_span(el); } Op::Orphan { el } => { let _ = m.add_element(el); }
        Op::Attach { to, what } => { let _ = m.attach(*to,*what); } Op::Detach { what } => { let _ = m.detach(*what); }
        Op::Declare { at, set, alias, format } => { m.declare(at,set.as_deref(),alias.as_deref(),format.as_deref()); } Op::AddClass { dec, class } => { if let Some(d) = m.decs.get_mut(*dec) { if !d.classes.contains(class) { d.classes.push(class.clone()) } } }
        Op::Processor { p, with } => { let _ = m.add_processor_with(p,with); } Op::Subprocessor { to, p, with } => { let _ = m.add_subprocessor_with(*to,p,with); } Op::AttachProcessor { to, what } => { let _ = m.attach_processor(*to,*what); }
        Op::Provenance { p, with } => { let _ = m.add_provenance(p,with); } Op::Activate { what } => { if *what < m.procs.len() { m.active = Some(*what) } }
    }
}
fn element(g: &mut G, p: &Profile, m: &Model) -> K { let n = m.els.len(); if p.bad > 0 && g.chance(p.bad,16) { n+g.below(3) } else if g.chance(1,3) { n-1-g.below(n.min(6)) } else { g.below(n) } }
fn inside_span(m: &Model, k: K) -> bool { k < m.els.len() && (in_group("Span",m.els[k].ty) || m.ancestors(k).iter().any(|a| in_group("Span",m.els[*a].ty))) }
///References get targets; sometimes something is made wrong on purpose
fn finish(g: &mut G, p: &Profile, m: &Model, el: &mut El, near: Option<K>) {
    gen::join(el); if p.firm { gen::firm_up(el) }
    let mut t = wrefable(m,near); if t.is_empty() || g.chance(1,6) { t = wrefable(m,None); }
    let any = g.chance(1,10) && !p.firm; gen::link(g,el,&t,any);
    if p.wrong > 0 && g.chance(p.wrong,16) {
        let mut ids: Vec<&String> = m.ids.keys().collect(); ids.sort();
        let dup = if !ids.is_empty() && g.chance(3,4) { Some(g.pick(&ids).to_string()) } else { el.attr("ID").map(|s| s.to_string()) };
        let lost = match g.below(4) { 0 => String::new(), 1 => "nowhere".into(), _ => match &dup { Some(d) => gen::near(g,d), None => "nowhere".into() } };
        let n = el.count(); let at = g.below(n); let kind = g.below(3); let mut i = 0;
        el.visit_mut(&mut |e| { if i == at { match kind { 0 => if let Some(d) = &dup { e.set_attr("ID",d) }, 1 => if e.ty == "WordReference" { e.set_attr("IDREF",&lost) } else if let Some(d) = &dup { e.set_attr("ID",d) }, _ => if e.ty == "WordReference" { e.attrs.retain(|a| a.0 != "IDREF") } } } i += 1; });
    }
}
fn op(g: &mut G, p: &Profile, api: &mut gen::Gen, m: &Model, name: &str, np: &mut usize) -> Option<Op> {
    Some(match name {
        "add"|"annotate" => {
            let to = element(g,p,m); let pty = m.els.get(to).map_or("Sentence",|e| e.ty);
            let ty = if g.chance(1,if p.firm {40} else {10}) { *g.pick(gen::alltypes()) } else { let span = inside_span(m,to); match api.childtype(g,pty,span,2) { Some(t) => t, None => *g.pick(&["Comment","Description"]) } };
            if p.firm && ty == "Feature" && m.els.get(to).map_or(true,|e| e.dec.is_none()) { return None; }
            let in_span = inside_span(m,to) || in_group("Span",ty);
            let mut el = if ["Word","Sentence"].contains(&ty) && g.chance(1,2) { if ty == "Word" { api.word(g,"Word") } else { api.sentence(g) } } else if in_group("Span",ty) && g.chance(2,3) { api.span(g,ty,0) } else { api.el(g,ty,in_span,3) };
            finish(g,p,m,&mut el,m.els.get(to).map(|_| to));
            if name == "add" { Op::AddTo { to, el } } else { Op::Annotate { to, el } }
        }
        "feature" => {
            let c: Vec<K> = (0..m.els.len()).filter(|k| ts(m.els[*k].ty).annotationtype.is_some() && (!p.firm || m.els[*k].dec.is_some())).collect(); if c.is_empty() { return None; }
            let to = *g.pick(&c); let mut el = api.el(g,"Feature",false,3); finish(g,p,m,&mut el,None); Op::AddTo { to, el }
        }
        "inline" => {
            let w: Vec<K> = (0..m.els.len()).filter(|k| m.els[*k].ty == "Word" || m.els[*k].ty == "Sentence").collect();
            let to = if w.is_empty() || g.chance(1,8) { element(g,p,m) } else { *g.pick(&w) };
            let ty = *g.pick(&["PosAnnotation","LemmaAnnotation","SenseAnnotation","Word","Comment","DomainAnnotation"]);
            let mut el = El { ty: ty.into(), attrs: api.attrs(g,ty), data: vec![] };
            while el.data.len() < 3 && g.chance(1,4) { let f = api.el(g,"Feature",false,9); el.data.push(Node::El(f)); }
            if g.chance(1,2) { el.attrs.retain(|a| a.0 != "PROCESSOR") }
            finish(g,p,m,&mut el,None); if g.chance(1,2) { Op::AddTo { to, el } } else { Op::Annotate { to, el } }
        }
        "span" => {
            let spans: Vec<&'static str> = gen::alltypes().iter().filter(|t| in_group("Span",t)).cloned().collect();
            let ty = if g.chance(1,2) { *g.pick(&["Entity","Chunk","Dependency","SemanticRole"]) } else { *g.pick(&spans) };
            //the context the words are taken from
            let ids = wrefable(m,None); if ids.is_empty() { return None; }
            let w = m.ids[g.pick(&ids)]; let anc = m.ancestors(w); let near = if anc.is_empty() { None } else { Some(*g.pick(&anc)) };
            let mut el = if g.chance(1,3) { api.span(g,ty,0) } else { let mut e = El { ty: ty.into(), attrs: api.attrs(g,ty), data: vec![] }; let n = if g.chance(1,25) { g.range(4,45) } else { g.range(1,3) }; for _ in 0..n { e.data.push(Node::El(El::new("WordReference"))); } e };
            if el.attr("SET").is_none() && g.chance(3,4) { el.set_attr("SET",&g.pick(&api.sets).clone()); }
            finish(g,p,m,&mut el,near);
            //a long span whose words are the same but for one
            if el.data.len() > 3 && g.chance(1,2) { let at = if g.chance(1,2) { el.data.len()-1 } else { g.below(el.data.len()) }; let mut id: Option<String> = None;
                for (i,n) in el.data.iter_mut().enumerate() { if let Node::El(e) = n { if e.ty == "WordReference" && i != at { match &id { Some(v) => if e.attr("IDREF").is_some() { e.set_attr("IDREF",v) }, None => id = e.attr("IDREF").map(|v| v.to_string()) } } } } }
            match g.below(4) { 0 => Op::Annotate { to: w, el }, 1 => Op::Annotate { to: near.unwrap_or(0), el }, _ => Op::AnnotateSpan { el } }
        }
        "anything" => { let to = element(g,p,m); let ty = *g.pick(gen::alltypes()); let mut el = El { ty: ty.into(), attrs: api.attrs(g,ty), data: vec![] }; finish(g,p,m,&mut el,None); Op::Annotate { to, el } }
        "orphan" if g.chance(1,10) => { let mut el = El::new("WordReference"); finish(g,p,m,&mut el,None); Op::Orphan { el } }
        "orphan" => { let ty = *g.pick(&["Word","Sentence","Paragraph","Entity","PosAnnotation","Feature","TextContent","EntitiesLayer"]); let mut el = if ty == "Word" { api.word(g,"Word") } else { api.el(g,ty,false,3) }; finish(g,p,m,&mut el,None); Op::Orphan { el } }
        "attach" => { let to = element(g,p,m); let what = element(g,p,m); Op::Attach { to, what } }
        //references, and what may hold references, into and out of spans; words
        "move" => {
            let pick = |g: &mut G, f: &dyn Fn(K)->bool| { let c: Vec<K> = (0..m.els.len()).filter(|k| f(*k)).collect(); if c.is_empty() { None } else { Some(*g.pick(&c)) } };
            let spans = |k: K| inside_span(m,k);
            let what = match g.below(6) { 0|1 => pick(g,&|k| m.els[k].ty == "WordReference"), 2 => pick(g,&|k| spans(k)), 3 => pick(g,&|k| ts(m.els[k].ty).wrefable), 4 => pick(g,&|k| !in_group("Span",m.els[k].ty) && m.children(k).any(|c| m.els[c].ty == "WordReference")), _ => None }.unwrap_or_else(|| element(g,p,m));
            let to = match g.below(4) { 0|1 => pick(g,&|k| in_group("Span",m.els[k].ty)), 2 => pick(g,&|k| spans(k)), _ => None }.unwrap_or_else(|| element(g,p,m));
            Op::Attach { to, what }
        }
        "detach" => Op::Detach { what: element(g,p,m) },
        "declare" => {
            let all: Vec<&'static str> = spec().annotationtypes.keys().map(|s| s.as_str()).collect();
            let at = if g.chance(1,4) { g.pick(&all).to_string() } else if !m.decs.is_empty() && g.chance(2,3) { g.pick(&m.decs).at.clone() } else { g.pick(&["POS","TOKEN","ENTITY","SENTENCE","LEMMA"]).to_string() };
            let set = if g.chance(1,4) { None } else { Some(g.pick(&api.sets).clone()) };
            let alias = if g.chance(1,8) { Some(if g.chance(1,4) { set.clone().unwrap_or_default() } else { format!("alias{}",m.decs.len()) }) } else { None }; let format = if g.chance(1,8) { Some(gen::nonempty(g)) } else { None };
            Op::Declare { at, set, alias, format }
        }
        "properties" if g.chance(1,2) => { let mut q = props(g); q.manual = false; if q.processor.is_some() { q.processor = Some(newproc(g,api,m,np)); } Op::Properties { props: q } }
        "properties" => match op(g,p,api,m,"declare",np)? { Op::Declare { at, set, alias, format } => Op::AddDeclaration { at, set, alias, format }, _ => return None },
        "class" | "vocabulary" if !m.decs.is_empty() && g.chance(1,16) => {
            let (n,what) = (*g.pick(&[12usize,40,70,130,260]),if name == "class" {0} else {1+g.below(2)}); for i in [n-1,n/2] { if what != 1 && !api.classes.contains(&bulk(i)) { api.classes.push(bulk(i)) } }
            Op::Bulk { dec: g.below(m.decs.len()), what, n }
        }
        "vocabulary" => { if m.decs.is_empty() { return None; } let dec = g.below(m.decs.len()); let subset = g.chance(1,2); let d = &m.decs[dec]; let v = if subset { &d.subsets } else { &d.subclasses };
            let value = match g.below(4) { 0 if !v.is_empty() => { let v = g.pick(v).clone(); if g.chance(1,2) { gen::near(g,&v) } else { v } } 1 => gen::nonempty(g), 2 => (*g.pick(&["head","actor","sub1","sub2"])).into(), _ => g.pick(&api.classes).clone() }; Op::AddFeatureValue { dec, subset, value } }
        "class" => Op::AddClass { dec: if g.chance(p.bad,16) { m.decs.len()+1 } else { g.below(m.decs.len().max(1)) }, class: if g.chance(1,4) { gen::nonempty(g) } else { g.pick(&api.classes).clone() } },
        "processor" => Op::Processor { p: newproc(g,api,m,np), with: existing(g,p,m) },
        "subprocessor" => { let to = proc_key(g,p,m); Op::Subprocessor { to, p: newproc(g,api,m,np), with: existing(g,p,m) } }
        "provenance" => { let mut q = newproc(g,api,m,np); q.subs.clear(); Op::Provenance { p: q, with: existing(g,p,m) } }
        "attach processor" => { let to = proc_key(g,p,m); let what = proc_key(g,p,m); Op::AttachProcessor { to, what } }
        "activate" => { if m.procs.is_empty() { return None; } Op::Activate { what: g.below(m.procs.len()) } }
        _ => unreachable!()
    })
}
fn existing(g: &mut G, p: &Profile, m: &Model) -> Vec<usize> { let mut v = vec![]; if m.procs.is_empty() || !g.chance(1,5) { return v; } while v.len() < 4 && (v.is_empty() || g.chance(1,2)) { v.push(proc_key(g,p,m)); } v }
fn proc_key(g: &mut G, p: &Profile, m: &Model) -> usize { let n = m.procs.len(); if n == 0 || (p.bad > 0 && g.chance(p.bad,16)) { n+g.below(3) } else { g.below(n) } }
fn newproc(g: &mut G, api: &gen::Gen, m: &Model, np: &mut usize) -> Proc {
    let d = if g.chance(1,2) {2} else {4}; let mut q = gen::proc(g,np,api.o.plain,d); fn pre(q: &mut Proc) { q.id = format!("h{}",q.id); for s in q.subs.iter_mut() { pre(s) } } pre(&mut q);
    //sometimes a processor that is there already
    if !m.procs.is_empty() && g.chance(1,8) { q.id = g.pick(&m.procs).p.id.clone(); }
    q
}
///Runs a history; f sees the world after every operation (with the operation and whether it was accepted)
pub fn perform(h: &Hist, o: &mut Obs, f: &mut dyn FnMut(&World,Option<(&Op,bool)>,&mut Obs)->Res) -> Result<World,String> {
    let mut w = World::start(&h.start)?; f(&w,None,o)?;
    let mut accepted = 0;
    for (i,op) in h.ops.iter().enumerate() {
        let ok = w.apply(op).map_err(|e| format!("operation {}, {}",i+1,e))?; if ok { accepted += 1; }
        o.label(&format!("{}{}",opname(op),if ok {""} else {" (refused)"}));
        f(&w,Some((op,ok)),o).map_err(|e| format!("after operation {} ({}): {}",i+1,opname(op),e))?;
    }
    o.nontrivial(accepted >= 1 && h.ops.len() >= 2);
    o.label(match h.ops.len() { 0 => "0 operations", 1..=4 => "1-4 operations", 5..=10 => "5-10 operations", _ => ">10 operations" });
    Ok(w)
}
