//! Writes document descriptions as XML, in many equivalent spellings chosen by a stream of small numbers.
use crate::doc::*;
use crate::spec::*;

///A finite stream of choices (0 once exhausted: the plain spelling)
pub struct Style<'a> { pub v: &'a [u8], pub i: usize }
impl<'a> Style<'a> {
    pub fn plain() -> Style<'static> { Style { v: &[], i: 0 } }
    pub fn new(v: &'a [u8]) -> Style<'a> { Style { v, i: 0 } }
    pub fn on(&self) -> bool { !self.v.is_empty() }
    ///cycles through the choices, so that a short stream styles a whole document
    pub fn next(&mut self, n: u8) -> u8 { if self.v.is_empty() { return 0; } let x = self.v[self.i % self.v.len()]; let turn = (self.i / self.v.len()) as u8; self.i += 1; x.wrapping_add(turn.wrapping_mul(7)) % n }
}
pub const ATTR_XML: &[(&str,&str)] = &[("ID","xml:id"),("SET","set"),("CLASS","class"),("ANNOTATOR","annotator"),("ANNOTATORTYPE","annotatortype"),("CONFIDENCE","confidence"),("N","n"),("DATETIME","datetime"),("BEGINTIME","begintime"),("ENDTIME","endtime"),("SRC","src"),("SPEAKER","speaker"),("TEXTCLASS","textclass"),("METADATA","metadata"),("IDREF","id"),("SPACE","space"),("PROCESSOR","processor"),("HREF","xlink:href"),("FORMAT","format"),("SUBSET","subset"),("TEXT","t"),("TYPE","type"),("AUTH","auth"),("OFFSET","offset"),("REF","ref"),("ORIGINAL","original"),("LINENR","linenr"),("PAGENR","pagenr"),("NEWPAGE","newpage"),("XLINKTYPE","xlink:type"),("TAG","tag")];
pub fn attr_xml(k: &str) -> String { if let Some(f) = k.strip_prefix("FEAT:") { return f.to_string(); } ATTR_XML.iter().find(|(a,_)| *a == k).map(|(_,x)| x.to_string()).unwrap_or_else(|| panic!("attr {}",k)) }
pub fn attr_of_xml(x: &str) -> Option<&'static str> { ATTR_XML.iter().find(|(_,n)| *n == x).map(|(a,_)| *a) }

pub struct Writer<'a> { pub out: String, pub st: Style<'a>, ///namespace prefix ("" = default namespace)
    pub pre: String, ///may whitespace be put between elements
    pub ws: bool, ///the spelling of line breaks
    pub eol: &'static str, ///the namespace is bound to a prefix as well as the default, the prefixes of the open elements
    pub both: bool, pub stack: Vec<String> }
impl<'a> Writer<'a> {
    pub fn new(st: Style<'a>) -> Writer<'a> { Writer { out: String::new(), st, pre: String::new(), ws: true, eol: "\n", both: false, stack: vec![] } }
    fn chars(&mut self, s: &str, q: Option<char>) {
        for c in s.chars() {
            let must = match c { '<'|'&' => true, '>' => q.is_none(), '\r' => true, '\n'|'\t' => q.is_some(), c => Some(c) == q };
            let style = if must || self.st.on() { self.st.next(if must {3} else {23}) } else { 9 };
            if must || style < 2 {
                match (c,style) {
                    ('<',0) => self.out.push_str("&lt;"), ('>',0) => self.out.push_str("&gt;"), ('&',0) => self.out.push_str("&amp;"), ('"',0) => self.out.push_str("&quot;"), ('\'',0) => self.out.push_str("&apos;"),
                    (c,1) if self.st.on() => self.out.push_str(&format!("&#x{:X};",c as u32)),
                    (c,_) if must || self.st.on() => self.out.push_str(&format!("&#{};",c as u32)),
                    (c,_) => self.out.push(c)
                }
            } else if c == '\n' { self.out.push_str(self.eol) }
            else if c == ' ' && q.is_some() && style == 7 { let e = self.eol; self.out.push_str(if self.st.next(2) == 1 {"\t"} else {e}) } //normalised to a space
            else { self.out.push(c) }
        }
    }
    pub fn text(&mut self, s: &str) {
        if self.st.on() && self.st.next(7) == 4 { //in two pieces, neither of them blank
            let at: Vec<usize> = s.char_indices().map(|(i,_)| i).filter(|i| !crate::conv::blank(&s[..*i]) && !crate::conv::blank(&s[*i..]) && !(s[..*i].ends_with('\r') && s[*i..].starts_with('\n'))).collect();
            if !at.is_empty() { let i = at[self.st.next(at.len().min(200) as u8) as usize];
                self.piece(&s[..i]); match self.st.next(3) { 0 => self.out.push_str("<?pi in text?>"), 1 => self.out.push_str("<![CDATA[]]>"), _ => {} } self.piece(&s[i..]); return; } }
        self.piece(s)
    }
    fn piece(&mut self, s: &str) {
        if self.st.on() && self.st.next(5) == 1 && !s.contains("]]>") && !s.contains('\r') { self.out.push_str("<![CDATA["); self.out.push_str(&s.replace('\n',self.eol)); self.out.push_str("]]>"); return; }
        self.chars(s,None)
    }
    pub fn gap(&mut self) {
        if !self.ws { return; }
        match self.st.next(6) { 0 => self.out.push('\n'), 1 => {}, 2 => self.out.push_str("\n  \t"), 3 => self.out.push_str(" "), 4 => self.out.push_str("\n<?pi some=\"thing\" ?>\n"), _ => self.out.push_str("\n\n") }
    }
    fn permute(&mut self, v: Vec<Attr>) -> Vec<Attr> {
        let mut v = v; let mut r = vec![];
        //shortcuts of features give features in the order in which they are written
        while !v.is_empty() { let mut i = self.st.next(v.len().min(200) as u8) as usize; if v[i].0.starts_with('\u{1}') { i = v.iter().position(|(k,_)| k.starts_with('\u{1}')).unwrap_or(i) } let (k,x) = v.remove(i); r.push((k.trim_start_matches('\u{1}').to_string(),x)); }
        r
    }
    pub fn open(&mut self, tag: &str, attrs: Vec<Attr>, empty: bool) {
        if self.both { self.pre = if self.st.next(2) == 1 { "f:".into() } else { String::new() }; }
        if !empty { self.stack.push(self.pre.clone()); }
        self.out.push('<'); self.out.push_str(&self.pre.clone()); self.out.push_str(tag);
        let mut attrs = attrs; if self.st.on() && self.out.len() > 300 && self.st.next(40) == 13 { let k = if self.pre.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}",self.pre.trim_end_matches(':')) }; if !attrs.iter().any(|(a,_)| *a == k) { attrs.push((k,"http://ilk.uvt.nl/folia".into())); } }
        for (k,v) in self.permute(attrs) {
            match self.st.next(4) { 0|1 => self.out.push(' '), 2 => self.out.push_str("\n  "), _ => self.out.push_str("  ") }
            self.out.push_str(&k);
            if self.st.next(7) == 3 { self.out.push_str(" = ") } else { self.out.push('=') }
            let q = if self.st.next(3) == 1 { '\'' } else { '"' };
            self.out.push(q); if k.starts_with("xmlns") { self.out.push_str(&v) } else { self.chars(&v,Some(q)) } self.out.push(q);
        }
        if empty { self.out.push_str(if self.st.next(4) == 2 {" />"} else {"/>"}) } else { self.out.push_str(if self.st.next(9) == 5 {" >"} else {">"}) }
    }
    pub fn close(&mut self, tag: &str) { self.out.push_str("</"); let pre = self.stack.pop().expect("open element"); self.out.push_str(&pre); self.out.push_str(tag); if self.st.next(9) == 5 { self.out.push(' ') } self.out.push('>'); }
    ///an element without content
    pub fn void(&mut self, tag: &str, attrs: Vec<Attr>) { if self.st.next(3) == 1 { self.open(tag,attrs,false); self.close(tag) } else { self.open(tag,attrs,true) } }
    pub fn el(&mut self, e: &El) {
        let t = tag(&e.ty).to_string();
        let attrs: Vec<Attr> = e.attrs.iter().map(|(k,v)| (if k.starts_with("FEAT:") { format!("\u{1}{}",attr_xml(k)) } else { attr_xml(k) },self.value(k,v))).collect();
        //attributes that mean nothing: those of other namespaces, and those of the explicit form
        let mut attrs = attrs; if self.st.on() && self.st.next(24) == 5 { let k = ["xlink:title","xlink:show","xlink:id","xlink:class","xml:lang","xml:space","typegroup","xlink:set"][self.st.next(8) as usize % 8]; attrs.push((k.into(),["inline","e1","N","","set-a","preserve"][self.st.next(6) as usize % 6].into())); }
        if e.data.is_empty() { self.void(&t,attrs); return; }
        self.open(&t,attrs,false);
        let inline = ts(&e.ty).textcontainer || ts(&e.ty).phoncontainer || e.data.iter().any(|n| matches!(n,Node::Text(_)));
        let ws = self.ws; if inline { self.ws = false; }
        self.gap();
        for n in e.data.iter() {
            match n { Node::El(c) => self.el(c), Node::Text(s) => self.text(s), Node::Comment(s) => { self.out.push_str("<!--"); self.out.push_str(&s.replace('\n',self.eol)); self.out.push_str("-->"); } }
            self.gap();
        }
        self.ws = ws;
        self.close(&t);
    }
    ///other spellings of a value of the kind
    fn value(&mut self, k: &str, v: &str) -> String {
        match (k,v) { ("SPACE"|"NEWPAGE","yes") if self.st.next(2) == 1 => "true".into(), ("SPACE"|"NEWPAGE","no") if self.st.next(2) == 1 => "false".into(), _ => v.to_string() }
    }
    pub fn meta(&mut self, f: &[Attr]) { for (k,v) in f { let idattr = if self.st.next(4) == 3 {"xml:id"} else {"id"}; if v.is_empty() { self.void("meta",vec![(idattr.into(),k.clone())]); } else { self.open("meta",vec![(idattr.into(),k.clone())],false); self.text(v); self.close("meta"); } self.gap(); } }
    fn proc(&mut self, p: &Proc) {
        let mut a: Vec<Attr> = vec![("xml:id".into(),p.id.clone()),("name".into(),p.name.clone())];
        if !p.ty.is_empty() { a.push(("type".into(),p.ty.clone())); }
        a.extend(p.fields.iter().cloned());
        if p.meta.is_empty() && p.subs.is_empty() { self.void("processor",a); } else {
            self.open("processor",a,false); self.gap();
            let first = self.st.next(3) == 1;
            if first { for s in p.subs.iter() { self.proc(s) } }
            self.meta(&p.meta);
            if !first { for s in p.subs.iter() { self.proc(s) } }
            self.close("processor");
        }
        self.gap();
    }
    pub fn annotations(&mut self, d: &Doc) {
        self.open("annotations",vec![],false); self.gap();
        for c in d.decs.iter() {
            let t = format!("{}-annotation",spec().annotationtypes[&c.at].name);
            let mut a: Vec<Attr> = vec![];
            for (k,v) in [("set",&c.set),("alias",&c.alias),("format",&c.format)] { if let Some(v) = v { a.push((k.into(),v.clone())) } }
            if c.annotators.is_empty() { self.void(&t,a) } else { self.open(&t,a,false); self.gap(); for p in c.annotators.iter() { self.void("annotator",vec![("processor".into(),p.clone())]); self.gap(); } self.close(&t); }
            self.gap();
        }
        self.close("annotations"); self.gap();
    }
    pub fn provenance(&mut self, d: &Doc) { self.open("provenance",vec![],false); self.gap(); for p in d.procs.iter() { self.proc(p) } self.close("provenance"); self.gap(); }
    pub fn doc(&mut self, d: &Doc) {
        match self.st.next(6) { 0 => self.out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"), 1 => {}, 4 => self.out.push_str("\u{feff}<?xml version=\"1.0\" encoding=\"UTF-8\"?>"), 5 => self.out.push_str("<?xml version=\"1.0\"?>\n<!DOCTYPE FoLiA>\n"), 2 => self.out.push_str("<?xml version='1.0' encoding='UTF-8' standalone='yes' ?>\n<!-- comment -->\n"), _ => self.out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<?xml-stylesheet type=\"text/xsl\" href=\"folia.xsl\"?>\n") }
        if self.st.on() { self.eol = *["\n","\n","\r\n","\r"].get(self.st.next(4) as usize).unwrap_or(&"\n"); }
        let p = if self.st.next(4) == 1 { "folia" } else { "" };
        let nsattr = if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}",p) };
        self.pre = if p.is_empty() { String::new() } else { format!("{}:",p) };
        self.both = self.st.next(5) == 3;
        let mut rootattrs: Vec<Attr> = vec![("xmlns:xlink".into(),"http://www.w3.org/1999/xlink".into())];
        if self.both { rootattrs.push(("xmlns".into(),"http://ilk.uvt.nl/folia".into())); rootattrs.push(("xmlns:f".into(),"http://ilk.uvt.nl/folia".into())); } else { rootattrs.push((nsattr,"http://ilk.uvt.nl/folia".into())); }
        rootattrs.extend(vec![("xml:id".into(),d.id.clone()),("version".into(),"2.1.0".into()),("generator".into(),"pbt".into())]);
        self.open("FoLiA",rootattrs,false);
        self.gap();
        let mut a: Vec<Attr> = vec![];
        if let Some(t) = &d.meta.ty { a.push(("type".into(),t.clone())); } if let Some(t) = &d.meta.src { a.push(("src".into(),t.clone())); }
        self.open("metadata",a,false); self.gap();
        let order = self.st.next(3); //annotations, provenance and meta fields may come in another order
        if order == 1 { self.meta(&d.meta.fields); }
        if order != 2 { self.annotations(d); self.provenance(d); } else { self.provenance(d); self.annotations(d); }
        if order != 1 { self.meta(&d.meta.fields); }
        for s in d.submeta.iter() {
            let mut a: Vec<Attr> = vec![("xml:id".into(),s.id.clone())];
            if let Some(t) = &s.ty { a.push(("type".into(),t.clone())); } if let Some(t) = &s.src { a.push(("src".into(),t.clone())); }
            if s.fields.is_empty() { self.void("submetadata",a) } else { self.open("submetadata",a,false); self.gap(); self.meta(&s.fields); self.close("submetadata"); }
            self.gap();
        }
        self.close("metadata"); self.gap();
        self.el(&d.body); self.gap();
        self.close("FoLiA");
        match self.st.next(5) { 0|3 => self.out.push('\n'), 2 => self.out.push_str("\n<!-- end -->\n<?pi end?>"), _ => {} }
    }
}
pub fn write(d: &Doc, style: &[u8]) -> String { let mut w = Writer::new(Style::new(style)); w.doc(d); w.out }
///The document as markup with nothing but the plain spelling
pub fn plain(d: &Doc) -> String { write(d,&[]) }
