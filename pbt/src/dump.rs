//! Observing a document through the library's public interface only, as plain data that can be compared with
//! the same view of the reference model (or of another document).
use folia::*;
use crate::doc::*;
use crate::model::{Model,MData,K};
use crate::spec::*;
use std::collections::{BTreeMap,HashMap};

#[derive(Clone,Debug,PartialEq,Default)]
pub struct DEl { pub ty: &'static str, pub attrs: Vec<Attr>, pub set: Option<String>, pub class: Option<String>, pub subset: Option<String>, pub proc: Option<String>, pub data: Vec<DData> }
#[derive(Clone,Debug,PartialEq)]
pub enum DData { El(DEl), Text(String), Comment(String), ///preorder index of the span
    Span(usize) }
#[derive(Clone,Debug,PartialEq,Default)]
pub struct Dump {
    pub id: String, pub meta: (Option<String>,Option<String>,BTreeMap<String,String>), pub submeta: BTreeMap<String,(Option<String>,Option<String>,BTreeMap<String,String>)>,
    pub decs: Vec<(String,Option<String>,Option<String>,Option<String>,Vec<String>)>,
    pub procs: Vec<Proc>,
    pub roots: Vec<DEl>,
}

pub fn fmt_dt(d: &chrono::NaiveDateTime) -> String { d.format("%Y-%m-%dT%H:%M:%S").to_string() }
pub fn ptype(t: ProcessorType) -> &'static str { match t { ProcessorType::Auto => "auto", ProcessorType::Manual => "manual", ProcessorType::Generator => "generator", ProcessorType::DataSource => "datasource" } }
pub fn ptype_of(s: &str) -> ProcessorType { match s { "manual" => ProcessorType::Manual, "generator" => ProcessorType::Generator, "datasource" => ProcessorType::DataSource, _ => ProcessorType::Auto } }
fn yn(b: bool) -> String { if b {"yes".into()} else {"no".into()} }
///(kind, canonical value) of an attribute; None for references to stores and ignored attributes
pub fn attr_view(a: &Attribute) -> Option<Attr> {
    let (k,v): (&str,String) = match a {
        Attribute::Ignore | Attribute::DeclarationRef(_) | Attribute::ClassRef(_) | Attribute::ProcessorRef(_) | Attribute::SubsetRef(_) => return None,
        Attribute::Id(s) => ("ID",s.clone()), Attribute::Set(s) => ("SET",s.clone()), Attribute::Class(s) => ("CLASS",s.clone()),
        Attribute::Annotator(s) => ("ANNOTATOR",s.clone()), Attribute::AnnotatorType(t) => ("ANNOTATORTYPE",ptype(*t).into()),
        Attribute::Confidence(f) => ("CONFIDENCE",format!("{}",f)), Attribute::N(s) => ("N",s.clone()), Attribute::DateTime(d) => ("DATETIME",fmt_dt(d)),
        Attribute::BeginTime(s) => ("BEGINTIME",s.clone()), Attribute::EndTime(s) => ("ENDTIME",s.clone()), Attribute::Src(s) => ("SRC",s.clone()),
        Attribute::Speaker(s) => ("SPEAKER",s.clone()), Attribute::Textclass(s) => ("TEXTCLASS",s.clone()), Attribute::Metadata(s) => ("METADATA",s.clone()),
        Attribute::Idref(s) => ("IDREF",s.clone()), Attribute::Space(b) => ("SPACE",yn(*b)), Attribute::Text(s) => ("TEXT",s.clone()), Attribute::Type(s) => ("TYPE",s.clone()),
        Attribute::Auth(s) => ("AUTH",s.clone()), Attribute::Offset(n) => ("OFFSET",n.to_string()), Attribute::Ref(s) => ("REF",s.clone()), Attribute::Original(s) => ("ORIGINAL",s.clone()),
        Attribute::LineNr(n) => ("LINENR",n.to_string()), Attribute::PageNr(s) => ("PAGENR",s.clone()), Attribute::NewPage(b) => ("NEWPAGE",yn(*b)), Attribute::XLinkType(s) => ("XLINKTYPE",s.clone()), Attribute::Tag(s) => ("TAG",s.clone()),
        Attribute::Processor(s) => ("PROCESSOR",s.clone()), Attribute::Href(s) => ("HREF",s.clone()), Attribute::Format(s) => ("FORMAT",s.clone()), Attribute::Subset(s) => ("SUBSET",s.clone()),
    };
    Some((k.to_string(),v))
}
pub fn dt(s: &str) -> chrono::NaiveDateTime { chrono::NaiveDateTime::parse_from_str(s,"%Y-%m-%dT%H:%M:%S").expect("datetime of the harness") }
pub fn attr_make(k: &str, v: &str) -> Attribute {
    let s = v.to_string();
    match k {
        "ID" => Attribute::Id(s), "SET" => Attribute::Set(s), "CLASS" => Attribute::Class(s), "ANNOTATOR" => Attribute::Annotator(s), "ANNOTATORTYPE" => Attribute::AnnotatorType(ptype_of(v)),
        "CONFIDENCE" => Attribute::Confidence(v.parse().expect("float of the harness")), "N" => Attribute::N(s), "DATETIME" => Attribute::DateTime(dt(v)), "BEGINTIME" => Attribute::BeginTime(s), "ENDTIME" => Attribute::EndTime(s),
        "SRC" => Attribute::Src(s), "SPEAKER" => Attribute::Speaker(s), "TEXTCLASS" => Attribute::Textclass(s), "METADATA" => Attribute::Metadata(s), "IDREF" => Attribute::Idref(s), "SPACE" => Attribute::Space(v == "yes"),
        "TEXT" => Attribute::Text(s), "TYPE" => Attribute::Type(s), "AUTH" => Attribute::Auth(s), "OFFSET" => Attribute::Offset(v.parse().unwrap()), "REF" => Attribute::Ref(s), "ORIGINAL" => Attribute::Original(s),
        "LINENR" => Attribute::LineNr(v.parse().unwrap()), "PAGENR" => Attribute::PageNr(s), "NEWPAGE" => Attribute::NewPage(v == "yes"), "XLINKTYPE" => Attribute::XLinkType(s), "TAG" => Attribute::Tag(s),
        "PROCESSOR" => Attribute::Processor(s), "HREF" => Attribute::Href(s), "FORMAT" => Attribute::Format(s), "SUBSET" => Attribute::Subset(s),
        _ => panic!("attr_make {}",k)
    }
}
///An element for the API (with its children to be constructed)
pub fn make(e: &El) -> ElementData {
    let mut d = ElementData::new(et(&e.ty)).with_attribs(e.attrs.iter().map(|(k,v)| attr_make(k,v)).collect());
    //the ways to give an element its data are equivalent
    let words: Vec<&str> = e.kids().filter_map(|c| c.attr("IDREF")).collect();
    if e.data.len() > 1 && words.len() == e.data.len() && e.kids().all(|c| c.ty == "WordReference" && c.attrs.len() == 1 && c.data.is_empty()) { return d.with_span(&words); }
    if let [Node::El(c)] = e.data.as_slice() { if let ("TextContent",[],[Node::Text(t)]) = (c.ty.as_str(),c.attrs.as_slice(),c.data.as_slice()) { return d.with_text(t.clone()); } }
    if e.data.len() == 2 { return d.with_children(e.data.iter().map(|n| match n { Node::El(c) => DataType::AddElement(make(c)), Node::Text(t) => DataType::text(t), Node::Comment(t) => DataType::comment(t) }).collect()); }
    if e.data.len() == 3 { for n in e.data.iter() { d.push(match n { Node::El(c) => DataType::AddElement(make(c)), Node::Text(t) => DataType::text(t), Node::Comment(t) => DataType::comment(t) }); } return d; }
    for n in e.data.iter() { d = match n { Node::El(c) => d.add_element(make(c)), Node::Text(t) => d.with(DataType::Text(t.clone())), Node::Comment(t) => d.with(DataType::Comment(t.clone())) } }
    d
}
pub fn make_proc(p: &Proc) -> Processor {
    let mut q = Processor::new(p.name.clone()).with_id(p.id.clone()).with_type(ptype_of(&p.ty));
    for (k,v) in p.fields.iter() { let v = v.clone(); q = match k.as_str() {
        "version" => q.with_version(v), "folia_version" => q.with_folia_version(v), "document_version" => q.with_document_version(v), "command" => q.with_command(v), "host" => q.with_host(v), "user" => q.with_user(v),
        "src" => q.with_src(v), "format" => q.with_format(v), "resourcelink" => q.with_resourcelink(v), "begindatetime" => q.with_begindatetime(dt(&v)), "enddatetime" => q.with_enddatetime(dt(&v)), _ => panic!("processor field {}",k) } }
    for (k,v) in p.meta.iter() { q.metadata.data.insert(k.clone(),v.clone()); }
    for s in p.subs.iter() { q = q.with_new_subprocessor(make_proc(s)); }
    q
}
pub fn make_props(p: &Props, speech: bool) -> DocumentProperties {
    let mut d = DocumentProperties::default();
    if p.declare.len() % 2 == 1 { d.declare.clear(); for (a,s) in p.declare.iter() { d = d.with_declaration(at(a),s.clone()); } if let Some(q) = &p.processor { d = d.with_processor(make_proc(q)); } return d.with_autodeclare(!p.manual).with_bodytype(if speech { BodyType::Speech } else { BodyType::Text }); }
    d.declare = p.declare.iter().map(|(a,s)| (at(a),s.clone())).collect();
    d.processor = p.processor.as_ref().map(make_proc);
    d.autodeclare = !p.manual;
    if speech { d.bodytype = BodyType::Speech; }
    d
}

fn proc_view(doc: &Document, k: ProcKey, parent: Option<ProcKey>, depth: usize) -> Result<Proc,String> {
    if depth > 200 { return Err("provenance chain deeper than anything that was added (cycle?)".into()); }
    let p = doc.get_processor(k).ok_or_else(|| format!("processor key {} in the chain does not exist",k))?;
    if p.parent != parent { return Err(format!("processor {} has parent key {:?} but is listed under {:?}",p.id,p.parent,parent)); }
    if p.key != Some(k) { return Err(format!("processor {} under key {} says its key is {:?}",p.id,k,p.key)); }
    if doc.get_processor_key_by_id(&p.id) != Some(k) { return Err(format!("processor id {} resolves to {:?}, not {}",p.id,doc.get_processor_key_by_id(&p.id),k)); }
    let mut f: Vec<Attr> = vec![];
    for (n,v) in [("version",&p.version),("folia_version",&p.folia_version),("document_version",&p.document_version),("command",&p.command),("host",&p.host),("user",&p.user),("src",&p.src),("format",&p.format),("resourcelink",&p.resourcelink)] { if !v.is_empty() { f.push((n.into(),v.clone())) } }
    if let Some(d) = &p.begindatetime { f.push(("begindatetime".into(),fmt_dt(d))) }
    if let Some(d) = &p.enddatetime { f.push(("enddatetime".into(),fmt_dt(d))) }
    f.sort();
    let mut meta: Vec<Attr> = p.metadata.data.iter().map(|(a,b)| (a.clone(),b.clone())).collect(); meta.sort();
    let subs = p.processors.iter().map(|s| proc_view(doc,*s,Some(k),depth+1)).collect::<Result<Vec<_>,_>>()?;
    Ok(Proc { id: p.id.clone(), name: p.name.clone(), ty: ptype(p.processortype).into(), fields: f, meta, subs })
}
fn proc_model(m: &Model, k: usize) -> Proc { let p = &m.procs[k]; proc_norm(&p.p, p.subs.iter().map(|s| proc_model(m,*s)).collect()) }
fn proc_norm(p: &Proc, subs: Vec<Proc>) -> Proc {
    let mut fields: Vec<Attr> = p.fields.iter().filter(|(_,v)| !v.is_empty()).cloned().collect(); fields.sort();
    let meta: BTreeMap<String,String> = p.meta.iter().cloned().collect();
    Proc { id: p.id.clone(), name: p.name.clone(), ty: if p.ty.is_empty() {"auto".into()} else {p.ty.clone()}, fields, meta: meta.into_iter().collect(), subs }
}

struct W<'a> { doc: &'a Document, index: HashMap<ElementKey,usize>, keys: Vec<ElementKey> }
impl<'a> W<'a> {
    fn el(&mut self, key: ElementKey, parent: Option<ElementKey>) -> Result<DEl,String> {
        let e = self.doc.get_element(key).ok_or_else(|| format!("element key {} does not exist",key))?;
        if e.key() != Some(key) { return Err(format!("element under key {} says its key is {:?}",key,e.key())); }
        if e.parent_key() != parent { return Err(format!("element {} ({}) is listed under {:?} but its parent is {:?}",key,et_name(e.elementtype()),parent,e.parent_key())); }
        if self.index.insert(key,self.keys.len()).is_some() { return Err(format!("element {} ({}) occurs twice in the document",key,et_name(e.elementtype()))); }
        self.keys.push(key);
        let mut attrs: Vec<Attr> = e.attribs().iter().filter_map(attr_view).collect(); attrs.sort();
        let mut d = DEl { ty: et_name(e.elementtype()), attrs, set: e.set().map(|s| s.to_string()), class: e.class().map(|s| s.to_string()), subset: e.subset().map(|s| s.to_string()), proc: e.processor().map(|s| s.to_string()), data: vec![] };
        let data = ReadElement::elementdata(&e);
        for i in 0..data.len() { d.data.push(match data.get_data_at(i).ok_or("data item out of range")? {
            DataType::Text(t) => DData::Text(t.clone()), DataType::Comment(t) => DData::Comment(t.clone()),
            DataType::SpanReference(k) => DData::Span(*k as usize),
            DataType::Element(k) => DData::El(self.el(*k,Some(key))?),
            DataType::AddElement(_) => return Err("an element that was never constructed is left in the document".into()),
        }); }
        Ok(d)
    }
}
fn fix(d: &mut DEl, f: &dyn Fn(usize)->usize) { for x in d.data.iter_mut() { match x { DData::Span(k) => *k = f(*k), DData::El(e) => fix(e,f), _ => {} } } }

///All elements without a parent
pub fn roots(doc: &Document) -> Vec<ElementKey> {
    <Document as Store<ElementData,ElementKey>>::iter(doc).enumerate().filter_map(|(i,e)| e.as_ref().filter(|e| e.parent_key().is_none()).map(|_| i as ElementKey)).collect()
}
pub fn n_elements(doc: &Document) -> usize { <Document as Store<ElementData,ElementKey>>::iter(doc).filter(|e| e.is_some()).count() }

pub fn tree(doc: &Document, roots: &[ElementKey]) -> Result<(Vec<DEl>,Vec<ElementKey>),String> {
    let mut w = W { doc, index: HashMap::new(), keys: vec![] };
    let mut v = vec![];
    for r in roots { v.push(w.el(*r,None)?); }
    let index = w.index; for d in v.iter_mut() { fix(d,&|k| index.get(&(k as ElementKey)).cloned().unwrap_or(usize::MAX)); }
    Ok((v,w.keys))
}
fn metaview(m: &Metadata) -> (Option<String>,Option<String>,BTreeMap<String,String>) { (m.metadatatype.clone(),m.src.clone(),m.data.iter().map(|(a,b)| (a.clone(),b.clone())).collect()) }
///The complete document as seen through its public interface, and its element keys in preorder
pub fn dump(doc: &Document, roots: &[ElementKey]) -> Result<(Dump,Vec<ElementKey>),String> {
    let (t,keys) = tree(doc,roots)?;
    let mut decs = vec![];
    for d in doc.declarations() { if let Some(d) = d {
        let procs = d.processors.iter().map(|p| doc.get_processor(*p).map(|p| p.id.clone()).ok_or_else(|| format!("declaration lists processor key {} which does not exist",p))).collect::<Result<Vec<_>,_>>()?;
        decs.push((at_name(d.annotationtype).to_string(),d.set.clone(),d.alias.clone(),d.format.clone(),procs));
    } }
    let procs = doc.provenancestore.chain.iter().map(|p| proc_view(doc,*p,None,0)).collect::<Result<Vec<_>,_>>()?;
    Ok((Dump { id: doc.id.clone(), meta: metaview(&doc.metadata), submeta: doc.submetadata.iter().map(|(k,v)| (k.clone(),metaview(v))).collect(), decs, procs, roots: t },keys))
}
fn mmeta(m: &Meta) -> (Option<String>,Option<String>,BTreeMap<String,String>) { (m.ty.clone(),m.src.clone(),m.fields.iter().cloned().collect()) }
fn mel(m: &Model, k: K, index: &mut HashMap<K,usize>, keys: &mut Vec<K>) -> DEl {
    index.insert(k,keys.len()); keys.push(k);
    let e = &m.els[k]; let mut attrs = e.attrs.clone(); attrs.sort();
    let mut d = DEl { ty: e.ty, attrs, set: m.set(k).map(|s| s.into()), class: e.class.clone(), subset: e.subset.clone(), proc: m.proc_id(k).map(|s| s.into()), data: vec![] };
    for x in e.data.iter() { d.data.push(match x { MData::El(c) => DData::El(mel(m,*c,index,keys)), MData::Text(t) => DData::Text(t.clone()), MData::Comment(t) => DData::Comment(t.clone()), MData::Span(s) => DData::Span(*s) }); }
    d
}
pub fn dump_model(m: &Model, roots: &[K]) -> (Dump,Vec<K>) {
    let (mut index,mut keys) = (HashMap::new(),vec![]);
    let mut t: Vec<DEl> = roots.iter().map(|r| mel(m,*r,&mut index,&mut keys)).collect();
    for d in t.iter_mut() { fix(d,&|k| index.get(&k).cloned().unwrap_or(usize::MAX)); }
    (Dump { id: m.id.clone(), meta: mmeta(&m.meta), submeta: m.submeta.iter().map(|(k,v)| (k.clone(),mmeta(v))).collect(),
        decs: m.decs.iter().map(|d| (d.at.clone(),d.set.clone(),d.alias.clone(),d.format.clone(),d.procs.iter().map(|p| m.procs[*p].p.id.clone()).collect())).collect(),
        procs: m.chain.iter().map(|p| proc_model(m,*p)).collect(), roots: t },keys)
}

///Adjacent text items are one text
pub fn merge_text(d: &mut DEl) {
    let mut v: Vec<DData> = vec![];
    for x in d.data.drain(..) { match (v.last_mut(),x) { (Some(DData::Text(a)),DData::Text(b)) => a.push_str(&b), (_,x) => v.push(x) } }
    for x in v.iter_mut() { if let DData::El(e) = x { merge_text(e) } }
    d.data = v;
}
pub fn strip_spans(d: &mut DEl) { d.data.retain(|x| !matches!(x,DData::Span(_))); for x in d.data.iter_mut() { if let DData::El(e) = x { strip_spans(e) } } }

fn short(s: &str) -> String { if s.chars().count() > 160 { s.chars().take(160).collect::<String>()+"…" } else { s.to_string() } }
pub fn diff_el(a: &DEl, b: &DEl, path: &str) -> Option<String> {
    let path = format!("{}/{}{}",path,b.ty,b.attrs.iter().find(|(k,_)| k == "ID").map_or(String::new(),|(_,v)| format!("#{}",v)));
    if a.ty != b.ty { return Some(format!("{}: element type {} instead of {}",path,a.ty,b.ty)); }
    if a.attrs != b.attrs { return Some(format!("{}: attributes {:?} instead of {:?}",path,a.attrs,b.attrs)); }
    for (n,x,y) in [("set",&a.set,&b.set),("class",&a.class,&b.class),("subset",&a.subset,&b.subset),("processor",&a.proc,&b.proc)] { if x != y { return Some(format!("{}: {} {:?} instead of {:?}",path,n,x,y)); } }
    for i in 0..a.data.len().max(b.data.len()) { match (a.data.get(i),b.data.get(i)) {
        (Some(DData::El(x)),Some(DData::El(y))) => if let Some(d) = diff_el(x,y,&format!("{}[{}]",path,i)) { return Some(d) },
        (x,y) => if x != y { return Some(format!("{}: item {} is {} instead of {}",path,i,short(&format!("{:?}",x)),short(&format!("{:?}",y)))) }
    } }
    None
}
///Where a (observed) differs from b (expected)
pub fn diff(a: &Dump, b: &Dump) -> Option<String> {
    if a == b { return None; }
    if a.id != b.id { return Some(format!("document id {:?} instead of {:?}",a.id,b.id)); }
    if a.meta != b.meta { return Some(format!("metadata {:?} instead of {:?}",a.meta,b.meta)); }
    if a.submeta != b.submeta { return Some(format!("submetadata {:?} instead of {:?}",a.submeta,b.submeta)); }
    if a.decs != b.decs { return Some(format!("declarations {:?} instead of {:?}",a.decs,b.decs)); }
    if a.procs != b.procs { return Some(format!("provenance {:?} instead of {:?}",a.procs,b.procs)); }
    if a.roots.len() != b.roots.len() { return Some(format!("{} trees instead of {}",a.roots.len(),b.roots.len())); }
    for (x,y) in a.roots.iter().zip(b.roots.iter()) { if let Some(d) = diff_el(x,y,"") { return Some(d); } }
    Some("documents differ".into())
}
///An annotation that names no processor is attributed to the sole annotator of its declaration when it is loaded again
pub fn implicit_procs(d: &mut Dump, expected: &Dump) {
    fn go(a: &mut DEl, b: &DEl, decs: &[(String,Option<String>,Option<String>,Option<String>,Vec<String>)]) {
        if a.proc.is_none() && b.proc.is_some() { if let Some(at) = &ts(a.ty).annotationtype { if decs.iter().any(|d| d.0 == *at && d.1 == a.set && d.4.len() == 1 && Some(&d.4[0]) == b.proc.as_ref()) { a.proc = b.proc.clone(); } } }
        for (x,y) in a.data.iter_mut().zip(b.data.iter()) { if let (DData::El(x),DData::El(y)) = (x,y) { go(x,y,decs) } }
    }
    let decs = expected.decs.clone();
    for (x,y) in d.roots.iter_mut().zip(expected.roots.iter()) { go(x,y,&decs) }
}
