//! The reference model: an executable specification of a FoLiA document in memory (declarations, provenance,
//! element tree, span references), on plain strings and vectors. Nothing here calls the library.
use crate::doc::*;
use crate::spec::*;
use std::collections::{BTreeMap,HashMap};

pub type K = usize;
#[derive(Clone,Debug,PartialEq)]
pub enum MData { El(K), Text(String), Comment(String), Span(K) }
#[derive(Clone,Debug)]
pub struct MEl { pub ty: &'static str, pub attrs: Vec<Attr>, pub dec: Option<usize>, pub class: Option<String>, pub subset: Option<String>, pub proc: Option<usize>, pub data: Vec<MData>, pub parent: Option<K> }
#[derive(Clone,Debug)]
pub struct MDec { pub at: String, pub set: Option<String>, pub alias: Option<String>, pub format: Option<String>, pub procs: Vec<usize>, pub classes: Vec<String>, pub subsets: Vec<String>, pub subclasses: Vec<String> }
#[derive(Clone,Debug)]
pub struct MProc { pub p: Proc, pub subs: Vec<usize>, pub parent: Option<usize> }
#[derive(Clone,Debug,Default)]
pub struct Model {
    pub id: String, pub meta: Meta, pub submeta: BTreeMap<String,Meta>,
    pub els: Vec<MEl>, pub ids: HashMap<String,K>,
    pub decs: Vec<MDec>, pub procs: Vec<MProc>, pub chain: Vec<usize>, pub active: Option<usize>,
    ///Declarations are not made automatically
    pub manual: bool,
}
pub fn intern(t: &str) -> &'static str { spec().types.get_key_value(t).unwrap_or_else(|| panic!("no type {}",t)).0.as_str() }
pub fn annotationtype(t: &str) -> Option<&'static str> { ts(t).annotationtype.as_deref() }
const ENC: [&str;4] = ["SET","CLASS","PROCESSOR","SUBSET"];
pub type R<T> = Result<T,String>;
fn add_str(v: &mut Vec<String>, s: &str) { if !v.iter().any(|x| x == s) { v.push(s.to_string()) } }

impl Model {
    pub fn new(id: &str, speech: bool, props: &Props) -> R<Model> {
        let mut m = Model { id: id.to_string(), manual: props.manual, ..Default::default() };
        m.add(&El::new(if speech {"Speech"} else {"Text"}), None)?;
        m.apply_props(props)?;
        Ok(m)
    }
    pub fn apply_props(&mut self, props: &Props) -> R<()> {
        if let Some(p) = &props.processor { let k = self.add_processor(p)?; self.active = Some(k); }
        for (at,set) in props.declare.iter() {
            let d = self.declare(at,set.as_deref(),None,None);
            if set.as_deref() == Some(TEXTSET) { add_str(&mut self.decs[d].classes,"current"); }
        }
        Ok(())
    }
    ///What loading the document has to give
    pub fn load(doc: &Doc, props: &Props) -> R<Model> {
        let mut m = Model { id: doc.id.clone(), manual: props.manual, ..Default::default() };
        m.meta = doc.meta.clone();
        for s in doc.submeta.iter() { if m.submeta.insert(s.id.clone(), s.clone()).is_some() { return Err("duplicate submetadata".into()); } }
        let mut annotators = vec![];
        for d in doc.decs.iter() {
            let k = m.add_declaration(&d.at,d.set.as_deref(),d.alias.as_deref(),d.format.as_deref());
            for a in d.annotators.iter() { annotators.push((k,a.clone())); }
        }
        fn addproc(m: &mut Model, p: &Proc, parent: Option<usize>) -> R<()> {
            if m.procs.iter().any(|q| q.p.id == p.id) { return Err("duplicate processor".into()); }
            m.procs.push(MProc { p: Proc { subs: vec![], ..p.clone() }, subs: vec![], parent });
            let k = m.procs.len()-1;
            match parent { Some(x) => m.procs[x].subs.push(k), None => m.chain.push(k) }
            for s in p.subs.iter() { addproc(m,s,Some(k))? }
            Ok(())
        }
        for p in doc.procs.iter() { addproc(&mut m,p,None)?; }
        for (d,a) in annotators { if let Some(p) = m.procs.iter().position(|q| q.p.id == a) { if !m.decs[d].procs.contains(&p) { m.decs[d].procs.push(p); } } }
        let body = El { ty: doc.body.ty.clone(), attrs: doc.body.attrs.clone(), data: vec![] };
        m.add(&body,None)?;
        let first = Props { processor: None, manual: props.manual, declare: props.declare.iter().filter(|(at,_)| !m.decs.iter().any(|d| d.at == *at)).cloned().collect() };
        m.apply_props(&first)?;
        let mut refs = vec![];
        for n in doc.body.data.iter() { m.load_node(0,n,&mut refs)?; }
        for k in refs { m.post_add(k)?; }
        m.apply_props(props)?;
        Ok(m)
    }
    fn load_node(&mut self, parent: K, n: &Node, refs: &mut Vec<K>) -> R<()> {
        match n {
            Node::Text(t) => { if !crate::conv::blank(t) { self.els[parent].data.push(MData::Text(t.clone())) } }
            Node::Comment(t) => { if !crate::conv::blank(t) { self.els[parent].data.push(MData::Comment(t.clone())) } }
            Node::El(e) => {
                let k = self.add(e,Some(parent))?;
                self.els[k].parent = Some(parent);
                self.els[parent].data.push(MData::El(k));
                for (a,v) in e.attrs.iter() { if let Some(sub) = a.strip_prefix("FEAT:") {
                    let f = self.add(&El::new("Feature").a("SUBSET",sub).a("CLASS",v),Some(k))?;
                    self.els[f].data.push(MData::Text(v.clone()));
                    self.els[f].parent = Some(k); self.els[k].data.push(MData::El(f));
                } }
                for c in e.data.iter() { self.load_node(k,c,refs)?; }
                if e.ty == "WordReference" { refs.push(k) } else { self.post_add(k)? }
            }
        }
        Ok(())
    }
    pub fn exists(&self, k: K) -> bool { k < self.els.len() }
    // ---- declarations
    pub fn find_dec(&self, at: &str, set: Option<&str>) -> Option<usize> { self.decs.iter().position(|d| d.at == at && d.set.as_deref() == set) }
    pub fn default_dec(&self, at: &str) -> Option<usize> {
        let v: Vec<usize> = (0..self.decs.len()).filter(|i| self.decs[*i].at == at).collect();
        if v.len() == 1 { Some(v[0]) } else { None }
    }
    pub fn default_set(&self, at: &str) -> Option<String> { self.default_dec(at).and_then(|d| self.decs[d].set.clone()) }
    pub fn add_declaration(&mut self, at: &str, set: Option<&str>, alias: Option<&str>, format: Option<&str>) -> usize {
        if let Some(d) = self.find_dec(at,set) { return d; }
        self.decs.push(MDec { at: at.into(), set: set.map(|s| s.into()), alias: alias.map(|s| s.into()), format: format.map(|s| s.into()), procs: vec![], classes: vec![], subsets: vec![], subclasses: vec![] });
        self.decs.len()-1
    }
    pub fn declare(&mut self, at: &str, set: Option<&str>, alias: Option<&str>, format: Option<&str>) -> usize {
        if let Some(d) = self.find_dec(at,set) { return d; }
        let d = match (set, self.default_dec(at)) { (None,Some(d)) => d, _ => self.add_declaration(at,set,alias,format) };
        if let Some(p) = self.active { if !self.decs[d].procs.contains(&p) { self.decs[d].procs.push(p); } }
        d
    }
    // ---- processors
    fn store_proc(&mut self, p: &Proc) -> usize {
        if let Some(k) = self.procs.iter().position(|q| q.p.id == p.id) { return k; }
        self.procs.push(MProc { p: Proc { subs: vec![], ..p.clone() }, subs: vec![], parent: None }); self.procs.len()-1
    }
    pub fn add_processor(&mut self, p: &Proc) -> R<usize> { self.add_processor_with(p,&[]) }
    pub fn add_processor_with(&mut self, p: &Proc, with: &[usize]) -> R<usize> {
        let k = self.add_provenance(p,with)?;
        if !self.chain.contains(&k) && self.procs[k].parent.is_none() { self.chain.push(k); }
        for s in p.subs.iter() { self.add_subprocessor(k,s)?; }
        Ok(k)
    }
    pub fn add_provenance(&mut self, p: &Proc, with: &[usize]) -> R<usize> { if with.iter().any(|k| *k >= self.procs.len()) { return Err("no such processor".into()); } let k = self.store_proc(p); for s in with { self.attach_processor(k,*s)?; } Ok(k) }
    pub fn add_subprocessor(&mut self, parent: usize, p: &Proc) -> R<usize> { self.add_subprocessor_with(parent,p,&[]) }
    pub fn add_subprocessor_with(&mut self, parent: usize, p: &Proc, with: &[usize]) -> R<usize> {
        let k = self.add_provenance(p,with)?;
        self.attach_processor(parent,k)?;
        for s in p.subs.iter() { self.add_subprocessor(k,s)?; }
        Ok(k)
    }
    pub fn attach_processor(&mut self, parent: usize, child: usize) -> R<()> {
        if parent >= self.procs.len() { return Err("no parent".into()); }
        let mut a = Some(parent);
        while let Some(k) = a { if k == child { return Err("cycle".into()); } a = self.procs[k].parent; }
        if child >= self.procs.len() { return Err("no child".into()); }
        match self.procs[child].parent.replace(parent) { Some(o) => self.procs[o].subs.retain(|x| *x != child), None => self.chain.retain(|x| *x != child) }
        self.procs[parent].subs.push(child);
        Ok(())
    }
    pub fn proc_by_id(&self, id: &str) -> Option<usize> { self.procs.iter().position(|q| q.p.id == id) }
    // ---- elements
    ///Resolves declaration, class, processor and stores the element (without data)
    ///The declaration an annotation needs; without automatic declaration it has to be there already
    fn autodeclare(&mut self, at: &str, set: Option<&str>) -> R<usize> {
        if self.manual && self.find_dec(at,set).is_none() && (set.is_some() || self.default_dec(at).is_none()) { return Err("not declared".into()); }
        Ok(self.declare(at,set,None,None))
    }
    fn add(&mut self, e: &El, ctx: Option<K>) -> R<K> {
        let mut el = MEl { ty: intern(&e.ty), attrs: e.attrs.iter().filter(|(k,_)| !ENC.contains(&k.as_str()) && !k.starts_with("FEAT:")).cloned().collect(), dec: None, class: None, subset: None, proc: None, data: vec![], parent: None };
        if e.attrs.iter().any(|(k,_)| ENC.contains(&k.as_str())) {
            let (set,class,subset) = (e.attr("SET"),e.attr("CLASS"),e.attr("SUBSET"));
            let mut list = false;
            if let Some(at) = annotationtype(el.ty) {
                let d = self.autodeclare(at,set)?; el.dec = Some(d);
                if let Some(c) = class { add_str(&mut self.decs[d].classes,c); el.class = Some(c.into()); }
                if self.decs[d].procs.len() == 1 { el.proc = Some(self.decs[d].procs[0]); }
                else if let Some(a) = self.active { el.proc = Some(a); list = true; }
            } else if el.ty == "Feature" {
                let p = ctx.ok_or("feature without context")?;
                let at = annotationtype(self.els[p].ty).ok_or("feature under element without annotation type")?;
                let d = match (self.els[p].dec, set) { (Some(d),None) => d, _ => self.autodeclare(at,set)? };
                el.dec = Some(d);
                if let Some(c) = class { add_str(&mut self.decs[d].subclasses,c); el.class = Some(c.into()); }
                if let Some(c) = subset { add_str(&mut self.decs[d].subsets,c); el.subset = Some(c.into()); }
            }
            if let Some(p) = e.attr("PROCESSOR").and_then(|p| self.proc_by_id(p)) { el.proc = Some(p); list = true; }
            if let (true,Some(d),Some(p)) = (list,el.dec,el.proc) { if !self.decs[d].procs.contains(&p) { self.decs[d].procs.push(p); } }
        }
        if let Some(id) = e.attr("ID") {
            if self.ids.contains_key(id) { return Err(format!("duplicate id {}",id)); }
            self.ids.insert(id.to_string(),self.els.len());
        }
        self.els.push(el);
        Ok(self.els.len()-1)
    }
    pub fn ancestors(&self, k: K) -> Vec<K> { let mut v = vec![]; let mut c = self.els[k].parent; while let Some(p) = c { v.push(p); c = self.els[p].parent; } v }
    pub fn children(&self, k: K) -> impl Iterator<Item=K> + '_ { self.els[k].data.iter().filter_map(|d| if let MData::El(k) = d { Some(*k) } else { None }) }
    pub fn attr(&self, k: K, n: &str) -> Option<&str> { self.els[k].attrs.iter().find(|(a,_)| a == n).map(|(_,v)| v.as_str()) }
    pub fn set(&self, k: K) -> Option<&str> { self.els[k].dec.and_then(|d| self.decs[d].set.as_deref()) }
    pub fn proc_id(&self, k: K) -> Option<&str> { self.els[k].proc.map(|p| self.procs[p].p.id.as_str()) }
    ///Name and type of the annotator: those of the processor, otherwise as stated on the element itself
    pub fn annotator(&self, k: K) -> Option<&str> { match self.els[k].proc { Some(p) => Some(&self.procs[p].p.name), None => self.attr(k,"ANNOTATOR") } }
    pub fn annotatortype(&self, k: K) -> Option<&str> { match self.els[k].proc { Some(p) => Some(if self.procs[p].p.ty.is_empty() {"auto"} else {&self.procs[p].p.ty}), None => self.attr(k,"ANNOTATORTYPE") } }
    fn post_add(&mut self, k: K) -> R<()> {
        let ty = self.els[k].ty;
        if ty == "WordReference" {
            let id = self.attr(k,"IDREF").ok_or("wref without id")?.to_string();
            let span = self.ancestors(k).into_iter().find(|a| in_group("Span",self.els[*a].ty)).ok_or("wref without span")?;
            let t = *self.ids.get(&id).ok_or("wref to nothing")?;
            self.els[t].data.push(MData::Span(span));
        } else if in_group("Layer",ty) && self.els[k].dec.is_none() {
            let mut found = None;
            self.dfs(k,&mut |m,_,d,_| { if let MData::El(c)|MData::Span(c) = d { if found.is_none() && in_group("Span",m.els[*c].ty) && annotationtype(m.els[*c].ty) == annotationtype(ty) && m.els[*c].dec.is_some() { found = m.els[*c].dec; } } });
            if found.is_some() { self.els[k].dec = found; }
        }
        Ok(())
    }
    ///Depth-first over all data under k: f(model, parent, data item, index)
    pub fn dfs(&self, k: K, f: &mut dyn FnMut(&Model,K,&MData,usize)) {
        for (i,d) in self.els[k].data.iter().enumerate() { f(self,k,d,i); if let MData::El(c) = d { self.dfs(*c,f) } }
    }
    fn new_ids<'a>(&self, e: &'a El, ids: &mut Vec<&'a str>) -> R<()> {
        if let Some(id) = e.attr("ID") { if ids.contains(&id) || self.ids.contains_key(id) { return Err("duplicate id".into()); } ids.push(id); }
        for c in e.kids() { self.new_ids(c,ids)?; }
        Ok(())
    }
    fn new_refs(&self, parent: Option<&str>, in_span: bool, e: &El, ids: &Vec<&str>) -> R<()> {
        if e.ty == "WordReference" && parent.is_some() {
            let id = e.attr("IDREF").ok_or("wref without id")?;
            if !in_span { return Err("wref without span".into()); }
            if !ids.contains(&id) && !self.ids.contains_key(id) { return Err("wref to nothing".into()); }
        }
        if e.ty == "Feature" && e.attrs.iter().any(|(k,_)| ENC.contains(&k.as_str())) && parent.and_then(annotationtype).is_none() { return Err("feature under element without annotation type".into()); }
        let in_span = in_span || in_group("Span",&e.ty);
        for c in e.kids() { self.new_refs(Some(&e.ty),in_span,c,ids)?; }
        Ok(())
    }
    fn check_new(&self, parent: Option<K>, e: &El) -> R<()> {
        let mut ids = vec![]; self.new_ids(e,&mut ids)?;
        let in_span = parent.map_or(false,|p| in_group("Span",self.els[p].ty) || self.ancestors(p).iter().any(|a| in_group("Span",self.els[*a].ty)));
        self.new_refs(parent.map(|p| self.els[p].ty),in_span,e,&ids)
    }
    ///Nothing is added unless everything in it is declared
    fn check_declared(&self, parent: Option<K>, e: &El) -> R<()> { if self.manual { let mut m = self.clone(); m.add_rec(parent,e,&mut vec![])?; } Ok(()) }
    fn add_rec(&mut self, parent: Option<K>, e: &El, added: &mut Vec<K>) -> R<K> {
        let k = self.add(e,parent)?; added.push(k);
        if let Some(p) = parent { self.els[k].parent = Some(p); self.els[p].data.push(MData::El(k)); }
        for n in e.data.iter() { match n { Node::El(c) => { self.add_rec(Some(k),c,added)?; } Node::Text(t) => self.els[k].data.push(MData::Text(t.clone())), Node::Comment(t) => self.els[k].data.push(MData::Comment(t.clone())) } }
        Ok(k)
    }
    pub fn add_element(&mut self, e: &El) -> R<K> {
        self.check_new(None,e)?; self.check_declared(None,e)?; let mut added = vec![]; let k = self.add_rec(None,e,&mut added)?;
        for a in added { if a != k { self.post_add(a)?; } }
        Ok(k)
    }
    pub fn add_element_to(&mut self, p: K, e: &El) -> R<K> {
        if !self.exists(p) { return Err("no parent".into()); }
        self.check_new(Some(p),e)?; self.check_declared(Some(p),e)?; let mut added = vec![]; let k = self.add_rec(Some(p),e,&mut added)?;
        for a in added { self.post_add(a)?; }
        Ok(k)
    }
    pub fn attach(&mut self, p: K, c: K) -> R<()> {
        if !self.exists(p) { return Err("no parent".into()); }
        if p == c || self.ancestors(p).contains(&c) { return Err("cycle".into()); }
        if !self.exists(c) { return Err("no child".into()); }
        //what the references in the child cover, before and after
        let new = if in_group("Span",self.els[p].ty) { Some(p) } else { self.span_of(p) }; let refs = self.outer_refs(c);
        if new.is_some() { for r in refs.iter() { if self.attr(*r,"IDREF").and_then(|i| self.ids.get(i)).is_none() { return Err("reference to nothing".into()); } } }
        let old = self.span_of(c); self.unlink(c);
        self.els[c].parent = Some(p); self.els[p].data.push(MData::El(c));
        self.relink(&refs,old,new); Ok(())
    }
    fn span_of(&self, k: K) -> Option<K> { self.ancestors(k).into_iter().find(|a| in_group("Span",self.els[*a].ty)) }
    ///References in k that do not belong to a span in k
    fn outer_refs(&self, k: K) -> Vec<K> { let mut v = vec![]; if self.els[k].ty == "WordReference" { v.push(k) } if !in_group("Span",self.els[k].ty) { for c in self.children(k) { v.extend(self.outer_refs(c)) } } v }
    fn relink(&mut self, refs: &[K], old: Option<K>, new: Option<K>) {
        if old == new { return; }
        for r in refs { if let Some(t) = self.attr(*r,"IDREF").and_then(|i| self.ids.get(i)).cloned() { let d = &mut self.els[t].data; if let Some(o) = old { if let Some(i) = d.iter().position(|x| *x == MData::Span(o)) { d.remove(i); } } if let Some(n) = new { d.push(MData::Span(n)) } } }
    }
    fn unlink(&mut self, c: K) { if let Some(o) = self.els[c].parent.take() { self.els[o].data.retain(|d| *d != MData::El(c)); } }
    pub fn detach(&mut self, c: K) -> R<()> {
        if !self.exists(c) { return Err("no child".into()); }
        let (refs,old) = (self.outer_refs(c),self.span_of(c)); self.unlink(c); self.relink(&refs,old,None); Ok(())
    }
    pub fn span_keys(&self, e: &El) -> Vec<K> { e.kids().filter(|c| c.ty == "WordReference").filter_map(|c| c.attr("IDREF").and_then(|i| self.ids.get(i)).cloned()).collect() }
    pub fn layer(&self, k: K, layertype: &str, set: Option<&str>) -> Option<K> {
        let d = self.find_dec(annotationtype(layertype)?,set)?;
        self.els[k].data.iter().filter_map(|x| match x { MData::El(c)|MData::Span(c) => Some(*c), _ => None }).find(|c| self.els[*c].ty == layertype && self.els[*c].dec == Some(d))
    }
    pub fn common_ancestors(&self, f: &dyn Fn(&Model,K)->bool, ks: &[K]) -> Vec<K> {
        let mut it = ks.iter().filter(|k| self.exists(**k));
        let mut r: Vec<K> = match it.next() { Some(k) => self.ancestors(*k).into_iter().filter(|a| f(self,*a)).collect(), None => vec![] };
        for k in it { let a = self.ancestors(*k); r.retain(|x| a.contains(x)); }
        r
    }
    pub fn annotate(&mut self, parent: K, e: &El) -> R<K> {
        if !self.exists(parent) { return Err("no parent".into()); }
        let pty = self.els[parent].ty;
        let (wrefable,structure) = (ts(pty).wrefable, in_group("Structure",pty));
        if in_group("Span",&e.ty) && (wrefable || structure) {
            let at = annotationtype(&e.ty).ok_or("no annotation type")?;
            let layertype = spec().annotationtypes[at].layertype.clone().ok_or("no layer type")?;
            if !accepts(&layertype,&e.ty) { return Err("not allowed in layer".into()); }
            self.check_new(None,e)?; self.check_declared(None,e)?;
            let set = match e.attr("SET") { Some(s) => s.to_string(), None => self.default_set(at).ok_or("no set")? };
            let home = if wrefable {
                let ks = self.span_keys(e);
                if ks.is_empty() { return Err("empty span".into()); }
                let anc = self.common_ancestors(&|m,k| in_group("Structure",m.els[k].ty),&ks);
                anc.into_iter().find(|a| { let s = ts(self.els[*a].ty); s.groups.iter().any(|g| g == "Layer") || s.types.iter().any(|t| *t == layertype) }).ok_or("no suitable ancestor")?
            } else { parent };
            let l = match self.layer(home,&layertype,Some(&set)) {
                Some(l) => l,
                None => { if !accepts(self.els[home].ty,&layertype) { return Err("layer not allowed".into()); } self.add_element_to(home,&El::new(&layertype).a("SET",&set))? }
            };
            return self.add_element_to(l,e);
        }
        if !accepts(pty,&e.ty) { return Err("not allowed".into()); }
        self.add_element_to(parent,e)
    }
    pub fn annotate_span(&mut self, e: &El) -> R<K> {
        if !in_group("Span",&e.ty) { return Err("no span".into()); }
        let ks = self.span_keys(e);
        if ks.is_empty() { return Err("empty span".into()); }
        self.annotate(ks[0],e)
    }
    pub fn roots(&self) -> Vec<K> { (0..self.els.len()).filter(|k| self.els[*k].parent.is_none()).collect() }

    // ---- text
    fn corrected_part(&self, k: K) -> Option<K> {
        if self.els[k].ty != "Correction" { return None; }
        ["New","Current"].iter().find_map(|t| self.children(k).find(|c| self.els[*c].ty == *t))
    }
    pub fn resolve(&self, k: K) -> Option<K> { self.attr(k,"IDREF").and_then(|i| self.ids.get(i)).cloned() }
    pub fn delimiter(&self, k: K, retain: bool) -> String {
        let e = &self.els[k]; let s = ts(e.ty);
        match &s.textdelimiter {
            Some(d) => if s.optional_attribs.iter().any(|a| a == "SPACE") && !retain && self.attr(k,"SPACE") == Some("no") { String::new() } else { d.clone() },
            None => if e.ty == "WordReference" { match self.resolve(k) { Some(t) if ts(self.els[t].ty).textdelimiter.is_some() => self.delimiter(t,retain), _ => String::new() } }
                else if e.ty == "Correction" { self.corrected_part(k).map_or(String::new(),|p| self.delimiter(p,retain)) }
                else { self.children(k).last().map_or(String::new(),|c| self.delimiter(c,retain)) }
        }
    }
    pub fn text(&self, k: K, class: &str, retain: bool, set: &str) -> Option<String> {
        self.find_dec("TEXT",Some(set))?;
        self.text_(k,class,retain,&mut vec![])
    }
    pub fn text_(&self, k: K, class: &str, retain: bool, refs: &mut Vec<K>) -> Option<String> {
        let e = &self.els[k]; let s = ts(e.ty);
        if s.textcontainer {
            let mut out = String::new();
            for d in e.data.iter() { match d {
                MData::Text(t) => out.push_str(t),
                MData::El(c) => { let cs = ts(self.els[*c].ty); if cs.printable {
                    if !out.is_empty() { if let Some(d) = &cs.textdelimiter { out.push_str(d) } }
                    if let Some(t) = self.text_(*c,class,retain,refs) { out.push_str(&t) }
                } }
                _ => {}
            } }
            return Some(out);
        }
        if !s.printable || s.hidden { return None; }
        let mut parts: Vec<(String,String)> = vec![]; //text, delimiter after it
        let mut own = None;
        for c in self.children(k) {
            let cty = self.els[c].ty;
            if in_group("Structure",cty) || cty == "Correction" || in_group("Span",cty) || self.corrected_part(k) == Some(c) {
                if let Some(t) = self.text_(c,class,retain,refs) { parts.push((t,self.delimiter(c,retain))); }
            } else if cty == "WordReference" {
                if let Some(t) = self.resolve(c).filter(|t| !refs.contains(t)) {
                    refs.push(t);
                    if let Some(x) = self.text_(t,class,retain,refs) { parts.push((x,self.delimiter(t,retain))); }
                    refs.pop();
                }
            } else if cty == "TextContent" && self.els[c].class.as_deref().unwrap_or("current") == class { own = Some(c); }
        }
        let mut out = String::new(); let n = parts.len();
        for (i,(t,d)) in parts.into_iter().enumerate() { out.push_str(&t); if i+1 < n { out.push_str(&d) } }
        if out.is_empty() { if let Some(o) = own { out = self.text_(o,class,retain,refs).unwrap_or_default(); } }
        if out.is_empty() { None } else { Some(out) }
    }
}
