//! Plain data describing documents, elements and processors: what generators produce, what the XML writer
//! writes, what the reference model loads and what replay files contain.
use serde::{Serialize,Deserialize};

///An attribute: (name of the AttribType variant, canonical value). "FEAT:x" is the shortcut x=".." for a feature.
pub type Attr = (String,String);

#[derive(Clone,Debug,PartialEq,Serialize,Deserialize,Default)]
pub struct El { pub ty: String, #[serde(default)] pub attrs: Vec<Attr>, #[serde(default)] pub data: Vec<Node> }
#[derive(Clone,Debug,PartialEq,Serialize,Deserialize)]
pub enum Node { El(El), Text(String), Comment(String) }

impl El {
    pub fn new(ty: &str) -> El { El { ty: ty.to_string(), attrs: vec![], data: vec![] } }
    pub fn a(mut self, k: &str, v: &str) -> El { self.attrs.push((k.into(),v.into())); self }
    pub fn c(mut self, e: El) -> El { self.data.push(Node::El(e)); self }
    pub fn t(mut self, s: &str) -> El { self.data.push(Node::Text(s.into())); self }
    pub fn attr(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|(n,_)| n == k).map(|(_,v)| v.as_str()) }
    pub fn set_attr(&mut self, k: &str, v: &str) { self.attrs.retain(|(n,_)| n != k); self.attrs.push((k.into(),v.into())); }
    pub fn kids(&self) -> impl Iterator<Item=&El> { self.data.iter().filter_map(|n| if let Node::El(e) = n { Some(e) } else { None }) }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a El)) { f(self); for k in self.kids() { k.visit(f) } }
    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut El)) { f(self); for n in self.data.iter_mut() { if let Node::El(e) = n { e.visit_mut(f) } } }
    pub fn count(&self) -> usize { let mut n = 0; self.visit(&mut |_| n += 1); n }
    ///An element with the subtree rooted here removed if f says so
    pub fn retain(&mut self, f: &dyn Fn(&El)->bool) { self.data.retain(|n| match n { Node::El(e) => f(e), _ => true }); for n in self.data.iter_mut() { if let Node::El(e) = n { e.retain(f) } } }
}

#[derive(Clone,Debug,PartialEq,Serialize,Deserialize,Default)]
pub struct Dec { pub at: String, pub set: Option<String>, pub alias: Option<String>, pub format: Option<String>, #[serde(default)] pub annotators: Vec<String> }
#[derive(Clone,Debug,PartialEq,Serialize,Deserialize,Default)]
pub struct Proc {
    pub id: String, pub name: String, ///auto, manual, generator, datasource
    pub ty: String,
    ///version, folia_version, document_version, command, host, user, src, format, resourcelink, begindatetime, enddatetime
    #[serde(default)] pub fields: Vec<(String,String)>,
    #[serde(default)] pub meta: Vec<(String,String)>, #[serde(default)] pub subs: Vec<Proc> }
impl Proc { pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a Proc)) { f(self); for s in self.subs.iter() { s.visit(f) } } }
#[derive(Clone,Debug,PartialEq,Serialize,Deserialize,Default)]
pub struct Meta { #[serde(default)] pub id: String, pub ty: Option<String>, pub src: Option<String>, #[serde(default)] pub fields: Vec<(String,String)> }

#[derive(Clone,Debug,PartialEq,Serialize,Deserialize,Default)]
pub struct Doc { pub id: String, #[serde(default)] pub meta: Meta, #[serde(default)] pub submeta: Vec<Meta>, #[serde(default)] pub decs: Vec<Dec>, #[serde(default)] pub procs: Vec<Proc>, pub body: El }

#[derive(Clone,Debug,PartialEq,Serialize,Deserialize,Default)]
pub struct Props { pub declare: Vec<(String,Option<String>)>, pub processor: Option<Proc>, ///no automatic declaration
    #[serde(default)] pub manual: bool }
pub const TEXTSET: &str = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl";
impl Props {
    pub fn default_() -> Props { Props { declare: vec![("TEXT".into(),Some(TEXTSET.into()))], processor: None, manual: false } }
    pub fn bare() -> Props { Props { declare: vec![], processor: None, manual: false } }
}
impl Doc {
    pub fn all_procs(&self) -> Vec<&Proc> { let mut v = vec![]; for p in self.procs.iter() { p.visit(&mut |q| v.push(q)) } v }
}
