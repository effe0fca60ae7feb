//! Generators: from choice streams to documents, elements, processors, metadata.
use crate::doc::*;
use crate::engine::G;
use crate::spec::*;
use std::collections::HashMap;
use std::sync::OnceLock;

// ------------------------------------------------------------------------------------------------ strings
const WORDS: &[&str] = &["a","hello","world","Dit","is","een","test","x","naïve","Ünï","漢字","😀","e\u{301}","שלום","\u{200d}z","1","3.14"];
const MARKUP: &[&str] = &["<","&","> ","\"","'","]]>","&amp;","&lt;b&gt;","<!--","-->","<?","%","{}","\\","/"];
///Text that is not blank
pub fn text(g: &mut G) -> String {
    let mut s = String::new(); if g.chance(1,200) { s.push_str(&long(g)); s.push('.'); }
    if g.chance(1,40) { return g.pick(&["\u{a0}","\u{3000}","\u{2003}\u{a0}","\u{85}","\u{2028}","\u{200b}","\u{a0}\n"]).to_string(); }
    if g.chance(1,6) { s.push_str(*g.pick(&[" ","  ","\n"])); }
    s.push_str(*g.pick(WORDS));
    while g.chance(1,2) { let t = match g.below(6) { 0|1 => *g.pick(WORDS), 2 => *g.pick(MARKUP), 3 => *g.pick(&[" ","\n","\t","  ","\u{a0}","\u{2028}","\r","\r\n","\u{85}"]), 4 => *g.pick(&[".",",","!","-","--"]), _ => return { s.push(uchar(g)); s.push('.'); s } }; s.push_str(t); }
    if g.chance(1,6) { s.push_str(*g.pick(&[" ","\n "," \n"])); }
    s
}
///Text that is longer than anything may count on
pub fn long(g: &mut G) -> String { let n = *g.pick(&[40usize,127,128,255,256,257,300,1000,1024,4095,4096,5000,9000]); let w = *g.pick(&["a","ab","word ","é","漢","😀","x y "]); let mut s = String::new(); while s.len()+w.len() <= n { s.push_str(w); } s }
///any character that XML can represent as it is
pub fn uchar(g: &mut G) -> char {
    let c = match g.below(4) { 0 => 0x20+g.below(0x5f), 1 => 0xa0+g.below(0x700), 2 => 0x1000+g.below(0xc000), _ => 0x10000+g.below(0xffff) } as u32;
    char::from_u32(c).filter(|c| crate::xmlr::xmlchar(*c)).unwrap_or('?')
}
///An attribute value: any text, possibly empty
pub fn value(g: &mut G) -> String {
    if g.chance(1,150) { let mut s = long(g); s.push('.'); return s; }
    match g.below(12) { 0..=6 => g.pick(&["v1","v2","v3","a b","x-1"]).to_string(), 7 => String::new(), 8 => match g.below(5) { 3 => g.pick(&[" ","  ","\u{a0}"]).to_string(), 0 => format!(" {} ",g.pick(WORDS)), 1 => format!("{}{}{}",g.pick(WORDS),g.pick(&["\n","\t","\r","\r\n"]),g.pick(WORDS)), _ => format!("{}{}",g.pick(&["\t","\n"]),g.pick(WORDS)) }, 9 => { let mut s = String::new(); while s.chars().count() < 6 && g.chance(3,4) { s.push(uchar(g)) } s }
        _ => { let mut s = g.pick(WORDS).to_string(); s.push_str(*g.pick(MARKUP)); if g.chance(1,2) { s.push_str(*g.pick(MARKUP)); } s } }
}
///Text that differs from the given text only a little, in a way that something careless may overlook
pub fn near(g: &mut G, s: &str) -> String {
    let t = match g.below(16) { 13 => format!("#{}",s), 14 => format!("{}#",s), 0 => s.to_uppercase(), 1 => s.to_lowercase(), 2 => format!("{} ",s), 3 => format!(" {}",s), 4 => format!("{}\u{a0}",s), 5 => { let mut t = s.to_string(); t.pop(); t } 6 => format!("{}s",s), 7 => s.replace('-',"_"), 8 => format!("{}/",s), 9 => format!("{}\u{200d}",s), 10 => s.chars().rev().collect(), 11 => format!("{}{}",s,s), 12 => { let mut t: Vec<char> = s.chars().collect(); if let Some(c) = t.first_mut() { *c = c.to_uppercase().next().unwrap_or(*c); } t.into_iter().collect() } _ => s.chars().skip(1).collect() };
    if t.trim().is_empty() || t == s { format!("{}x",s) } else { t }
}
///sometimes adds something near to one of them
fn with_near(g: &mut G, v: &mut Vec<String>) { while v.len() < 12 && g.chance(1,3) { let s = g.pick(v).clone(); let n = near(g,&s); if !v.contains(&n) { v.push(n); } } }
pub fn datetime(g: &mut G) -> String {
    if g.chance(1,2) { return g.pick(&["2020-01-01T00:00:00","1999-12-31T23:59:59","2021-06-15T12:30:07","2000-02-29T12:00:00","1969-12-31T23:59:59"]).to_string(); }
    let (y,m) = (match g.below(4) { 0 => 1+g.below(9999), 1 => 1600+g.below(300), _ => 1970+g.below(70) },1+g.below(12)); let d = 1+g.below(match m { 2 => 28, 4|6|9|11 => 30, _ => 31 });
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",y,m,d,g.below(24),g.below(60),g.below(60))
}
fn confidence(g: &mut G) -> String { let f = match g.below(5) { 0 => g.below(1_000_000) as f64/1e6, 1 => g.below(1000) as f64/7.0, 2 => 10f64.powi(g.below(40) as i32-20), 3 => f64::from_bits(((g.below(1<<31) as u64) << 32 | g.below(1<<31) as u64) & 0x3fff_ffff_ffff_ffff), _ => 1.0-g.below(1000) as f64/1e9 }; format!("{}",f) }
///not blank
pub fn nonempty(g: &mut G) -> String { let v = value(g); if v.trim().is_empty() { "v0".into() } else { v } }
///Anything at all that XML can represent as character data
pub fn anytext(g: &mut G) -> String { let mut s = String::new(); while g.chance(3,4) && s.len() < 60 { match g.below(4) { 0 => s.push_str(*g.pick(WORDS)), 1 => s.push_str(*g.pick(MARKUP)), 2 => s.push_str(*g.pick(&[" ","\n","\t","  ","\r","\r\n"])), _ => s.push(uchar(g)) } } s }

// ------------------------------------------------------------------------------------------------ vocabulary
///Element types that the generators leave alone (see DESIGN.md)
const EXCLUDED: &[&str] = &["ForeignData"];
pub fn usable(t: &str) -> bool { !EXCLUDED.contains(&t) && !ts(t).tag.is_empty() && (t == "Feature" || !in_group("Feature",t)) && t != "SpanReference" }
pub fn alltypes() -> &'static Vec<&'static str> { static M: OnceLock<Vec<&'static str>> = OnceLock::new(); M.get_or_init(|| spec().types.keys().map(|s| s.as_str()).filter(|t| usable(t)).collect()) }
pub fn accepted(parent: &str) -> &'static Vec<&'static str> {
    static M: OnceLock<HashMap<&'static str,Vec<&'static str>>> = OnceLock::new();
    M.get_or_init(|| spec().types.keys().map(|p| (p.as_str(),alltypes().iter().filter(|c| accepts(p,c)).cloned().collect())).collect()).get(parent).unwrap()
}
const COMMON: &[&str] = &["Division","Paragraph","Sentence","Word","TextContent","PosAnnotation","LemmaAnnotation","EntitiesLayer","Entity","ChunkingLayer","Chunk","WordReference","DependenciesLayer","Dependency","Headspan","DependencyDependent","SemanticRolesLayer","SemanticRole","Correction","New","Original","Suggestion","Comment","Description","TextMarkupStyle","TextMarkupString","Feature","MorphologyLayer","Morpheme","Head","List","ListItem","Quote","Event","Linebreak","Whitespace","PhonContent","Metric","CoreferenceLayer","CoreferenceChain","CoreferenceLink","Hiddenword","Utterance","TimingLayer","TimeSegment","Part","Alternative","AlternativeLayers","SpanRelation","Relation"];
fn common(parent: &str) -> &'static Vec<&'static str> {
    static M: OnceLock<HashMap<&'static str,Vec<&'static str>>> = OnceLock::new();
    M.get_or_init(|| spec().types.keys().map(|p| (p.as_str(),accepted(p).iter().filter(|c| COMMON.contains(c)).cloned().collect())).collect()).get(parent).unwrap()
}
pub fn featured(t: &str) -> Vec<&'static str> { //shortcut attributes for features
    ts(t).types.iter().filter(|c| in_group("Feature",c) && *c != "Feature").filter_map(|c| ts(c).subset.as_deref()).filter(|s| crate::xmlw::attr_of_xml(s).is_none()).collect()
}

// ------------------------------------------------------------------------------------------------ elements
#[derive(Clone)]
pub struct Opts {
    ///any element anywhere, not just where the specification allows it
    pub loose: bool, ///spans, layers and word references
    pub spans: bool, ///feature shortcut attributes
    pub shortcuts: bool, pub comments: bool, ///plain attribute values only
    pub plain: bool, ///probability (of 8) for an id
    pub ids: usize,
    ///words get ids and text, structure is favoured
    pub wordy: bool, ///types never generated
    pub not: Vec<&'static str>, ///features only under elements that refer to a declaration themselves (known finding)
    pub firm_features: bool,
}
impl Default for Opts { fn default() -> Opts { Opts { loose: false, spans: true, shortcuts: true, comments: true, plain: false, ids: 3, wordy: false, not: vec![], firm_features: false } } }
pub struct Gen { pub o: Opts, pub budget: usize, pub n: usize, pub sets: Vec<String>, pub classes: Vec<String>, pub procs: Vec<String>, pub prefix: String, pub subsets: Vec<String>, pub ids: Vec<String> }
pub const SETS: &[&str] = &["https://example.org/set.ttl","set-a","set-b","https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl","s/e/t","é & <ü>","undefined"];
pub const CLASSES: &[&str] = &["N","V","current","original","ADJ(x)","a","b","ü<&\">"];
impl Gen {
    pub fn new(g: &mut G, o: Opts, procs: Vec<String>) -> Gen {
        let sets = if o.plain { vec!["set-a".into(),"set-b".into()] } else { let n = g.range(1,4); let mut v = (0..n).map(|_| if g.chance(1,24) { String::new() } else { g.pick(SETS).to_string() }).collect(); with_near(g,&mut v); v };
        let mut classes: Vec<String> = CLASSES.iter().take(if o.plain {4} else {8}).map(|s| s.to_string()).collect(); if !o.plain { classes.push(value(g)); with_near(g,&mut classes); }
        let mut subsets: Vec<String> = ["sub1","sub2","number","a&b"].iter().map(|s| s.to_string()).collect(); if !o.plain { with_near(g,&mut subsets); }
        Gen { budget: g.size, o, n: 0, sets, classes, procs, prefix: "e".into(), subsets, ids: vec![] }
    }
    pub fn newid(&mut self, g: &mut G, ty: &str) -> String {
        if !self.o.plain && !self.ids.is_empty() && g.chance(1,24) { let s = g.pick(&self.ids).clone(); let i = near(g,&s); if !self.ids.contains(&i) { self.ids.push(i.clone()); return i; } }
        let mut i = self.freshid(g,ty); while self.ids.contains(&i) { i = self.freshid(g,ty); } self.ids.push(i.clone()); i }
    fn freshid(&mut self, g: &mut G, ty: &str) -> String { self.n += 1; if self.o.plain || g.chance(9,10) { format!("{}.{}.{}",self.prefix,tag(ty),self.n) } else { let n = self.n; match g.below(15) { 14 => format!("#id-{}",n), 6 => n.to_string(), 7 => format!("{}a",n), 8 => format!("ID-{}",n-1), 9 => format!("-{}.",n), 10 => format!("id-{} ",n), 11 => format!(" id-{}",n), 12 => format!("{}.{}.{}",self.prefix.to_uppercase(),tag(ty),n), 13 => format!("\"{}'",n), k => format!("{}{}",["é","a b","<&>","id-","_","漢"][k as usize],n) } } }
    pub fn attrs(&mut self, g: &mut G, ty: &'static str) -> Vec<Attr> {
        let mut a: Vec<Attr> = vec![];
        let id = if self.o.wordy && ts(ty).wrefable { 7 } else { self.o.ids };
        if g.chance(id,8) { let v = self.newid(g,ty); a.push(("ID".into(),v)); }
        if ty == "Feature" {
            a.push(("SUBSET".into(),g.pick(&self.subsets).clone())); a.push(("CLASS".into(),g.pick(&self.classes.clone()).clone()));
        } else if ts(ty).annotationtype.is_some() {
            if g.chance(3,8) { a.push(("SET".into(),g.pick(&self.sets.clone()).clone())); }
            if g.chance(if ty == "TextContent" {1} else {4},8) { a.push(("CLASS".into(),g.pick(&self.classes.clone()).clone())); }
            if !self.procs.is_empty() && g.chance(1,4) { a.push(("PROCESSOR".into(),g.pick(&self.procs.clone()).clone())); }
        }
        let spaced = ts(ty).optional_attribs.iter().any(|a| a == "SPACE");
        if spaced && g.chance(1,4) { a.push(("SPACE".into(),g.pick(&["no","yes"]).to_string())); }
        while a.len() < 8 && g.chance(1,4) {
            let k = *g.pick(&["CONFIDENCE","DATETIME","N","ANNOTATOR","ANNOTATORTYPE","BEGINTIME","ENDTIME","SRC","SPEAKER","TEXTCLASS","METADATA","SPACE","TEXT","TYPE","AUTH","OFFSET","REF","ORIGINAL","LINENR","PAGENR","NEWPAGE","XLINKTYPE","HREF","FORMAT","IDREF","TAG"]);
            if a.iter().any(|(n,_)| n == k) || (k == "IDREF" && ty == "WordReference") || (k == "SPACE" && spaced) { continue; }
            let v = match k {
                "CONFIDENCE" => if self.o.plain || g.chance(2,3) { g.pick(&["0","1","0.5","0.25","0.123456789","0.0000001","100"]).to_string() } else { confidence(g) },
                "DATETIME" => datetime(g),
                "ANNOTATORTYPE" => g.pick(&["auto","manual","generator","datasource"]).to_string(),
                "SPACE"|"NEWPAGE" => g.pick(&["no","yes"]).to_string(),
                "OFFSET"|"LINENR" => if g.chance(1,2) { g.pick(&["0","1","7","65535"]).to_string() } else { g.below(65536).to_string() },
                _ => if self.o.plain { g.pick(&["v1","v2"]).to_string() } else { value(g) },
            };
            a.push((k.into(),v));
        }
        if self.o.shortcuts { let f = featured(ty); while !f.is_empty() && g.chance(1,3) { let s = g.pick(&f); let k = format!("FEAT:{}",s); if a.iter().any(|(n,_)| *n == k) { break; } let v = nonempty(g); a.push((k,v)); } }
        a
    }
    pub fn childtype(&mut self, g: &mut G, parent: &'static str, in_span: bool, depth: usize) -> Option<&'static str> {
        for _ in 0..3 {
            let any = self.o.loose && g.chance(1,3);
            let list = if any { alltypes() } else if g.chance(1,4) || common(parent).is_empty() { accepted(parent) } else { common(parent) };
            if list.is_empty() { return None; }
            let mut t = *g.pick(list);
            if self.o.wordy && depth < 4 && g.chance(1,2) { for c in ["Word","Sentence","Paragraph"] { if list.contains(&c) { t = c; break; } } }
            if t == "WordReference" && (!in_span || !self.o.spans) { continue; }
            if !self.o.spans && (in_group("Layer",t) || in_group("Span",t)) { continue; }
            if t == "Feature" && ts(parent).annotationtype.is_none() { continue; }
            if self.o.not.contains(&t) || depth > 40 { continue; }
            return Some(t);
        }
        None
    }
    pub fn el(&mut self, g: &mut G, ty: &'static str, in_span: bool, depth: usize) -> El {
        let attrs = self.attrs(g,ty);
        let mut e = El { ty: ty.into(), attrs, data: vec![] };
        self.fill(g,&mut e,ty,in_span || in_group("Span",ty),depth);
        e
    }
    pub fn fill(&mut self, g: &mut G, e: &mut El, ty: &'static str, in_span: bool, depth: usize) {
        if ty == "WordReference" { if self.o.comments && g.chance(1,20) { e.data.push(Node::Comment("c".into())); } return; }
        let s = ts(ty);
        let textual = s.textcontainer || s.phoncontainer || ["Comment","Description","Content","Feature"].contains(&ty);
        let more = if textual || in_group("Inline",ty) { 4 } else if in_group("Structure",ty) || in_group("Layer",ty) || depth == 0 { if depth == 0 { 7 } else { 6 } } else { 5 };
        let firm = !self.o.firm_features || e.attrs.iter().any(|(k,_)| ["SET","CLASS","PROCESSOR"].contains(&k.as_str()));
        if textual && !g.chance(1,10) { e.data.push(Node::Text(self.str(g))); }
        else if ty == "Word" && self.o.wordy && g.chance(7,8) { let mut t = El::new("TextContent"); if g.chance(1,8) { t = t.a("CLASS",g.pick(&["current","original"])); } e.data.push(Node::El(t.t(&self.str(g)))); }
        while self.budget > 0 && g.chance(more,8) {
            match g.below(16) {
                0 if self.o.comments => e.data.push(Node::Comment(self.comment(g))),
                1 if textual || self.o.loose => e.data.push(Node::Text(self.str(g))),
                _ => if let Some(c) = self.childtype(g,ty,in_span,depth).filter(|c| firm || *c != "Feature") { self.budget -= 1; let c = self.el(g,c,in_span,depth+1); e.data.push(Node::El(c)); if textual && g.chance(1,2) { e.data.push(Node::Text(self.str(g))); } }
            }
        }
        join(e);
    }
    pub fn str(&mut self, g: &mut G) -> String { if self.o.plain { g.pick(&["a","b","c","d e","f "]).to_string() } else { text(g) } }
    fn comment(&mut self, g: &mut G) -> String { if self.o.plain { "c".into() } else { format!("{}{}",text(g).replace('\r',"").replace("--","- ").replace("--","- "),"!") } }
}
///see Opts::firm_features
pub fn firm_up(e: &mut El) { e.visit_mut(&mut |e| if !e.attrs.iter().any(|(k,_)| ["SET","CLASS","PROCESSOR"].contains(&k.as_str())) { e.attrs.retain(|(k,_)| !k.starts_with("FEAT:")); e.data.retain(|n| !matches!(n,Node::El(c) if c.ty == "Feature")); join(e) }) }
///adjacent texts are one text in XML
pub fn join(e: &mut El) { let mut d: Vec<Node> = vec![]; for n in e.data.drain(..) { match (d.last_mut(),n) { (Some(Node::Text(a)),Node::Text(b)) => a.push_str(&b), (_,n) => d.push(n) } } e.data = d; }
// ------------------------------------------------------------------------------------------------ realistic documents
impl Gen {
    fn node(&mut self, g: &mut G, ty: &'static str) -> El { let attrs = self.attrs(g,ty); self.budget = self.budget.saturating_sub(1); El { ty: ty.into(), attrs, data: vec![] } }
    fn noise(&mut self, g: &mut G, e: &mut El, in_span: bool, depth: usize) { if self.budget > 0 && g.chance(1,12) { let ty = crate::model::intern(&e.ty); if let Some(c) = self.childtype(g,ty,in_span,depth) { if c == "Feature" && self.o.firm_features { return; } let c = self.el(g,c,in_span,depth+1); e.data.push(Node::El(c)); } } }
    pub fn textcontent(&mut self, g: &mut G) -> El { let mut t = El::new("TextContent"); if g.chance(1,6) { t = t.a("CLASS",*g.pick(&["current","original","ocr"])); } if g.chance(1,12) { t = t.a("SET",&g.pick(&self.sets.clone()).clone()); } let s = self.str(g); t = t.t(&s);
        while self.budget > 0 && g.chance(1,6) { let ty = *g.pick(&["TextMarkupStyle","TextMarkupString","Linebreak","TextMarkupGap","Hyphbreak","TextMarkupCorrection","TextMarkupError","Whitespace","TextMarkupReference","LinkReference"]); if !accepts("TextContent",ty) { continue; } let mut m = self.node(g,ty); if ts(ty).textcontainer { let s = self.str(g); m.data.push(Node::Text(s)); } t = t.c(m); if g.chance(1,2) { let s = self.str(g); t = t.t(&s); } }
        t }
    pub fn word(&mut self, g: &mut G, ty: &'static str) -> El {
        let mut w = self.node(g,ty);
        if w.attr("ID").is_none() && g.chance(7,8) { let id = self.newid(g,ty); w.attrs.push(("ID".into(),id)); }
        if g.chance(6,7) { let t = self.textcontent(g); w = w.c(t); }
        if self.budget > 0 && g.chance(1,10) { let mut c = self.node(g,"Correction"); for part in ["New","Original","Current"] { if g.chance(1,2) { let mut n = self.node(g,part); let t = self.textcontent(g); n = n.c(t); self.noise(g,&mut n,false,6); c = c.c(n); } } w = w.c(c); }
        for a in ["PosAnnotation","LemmaAnnotation","SenseAnnotation"] { if self.budget > 0 && g.chance(1,4) { let mut p = self.node(g,a); if p.attr("CLASS").is_none() { p.set_attr("CLASS",&g.pick(&self.classes.clone()).clone()); } if g.chance(1,4) { let f = self.el(g,"Feature",false,9); p = p.c(f); } w = w.c(p); } }
        if self.budget > 2 && g.chance(1,10) { let mut l = self.node(g,"MorphologyLayer"); while self.budget > 0 && l.data.len() < 3 && g.chance(2,3) { let m = self.word(g,"Morpheme"); l = l.c(m); } w = w.c(l); }
        self.noise(g,&mut w,false,5); w
    }
    fn wrefs(&mut self, g: &mut G, e: &mut El) { let many = g.chance(1,60); loop { let mut w = El::new("WordReference"); if g.chance(1,4) { w = w.a("TEXT","t"); } e.data.push(Node::El(w)); self.budget = self.budget.saturating_sub(1); if !(g.chance(1,2) || many && g.chance(40,41)) { return; } } }
    pub fn span(&mut self, g: &mut G, ty: &'static str, depth: usize) -> El {
        let mut e = self.node(g,ty);
        if e.attr("CLASS").is_none() && ts(ty).annotationtype.is_some() && g.chance(3,4) { e.set_attr("CLASS",&g.pick(&self.classes.clone()).clone()); }
        let nested: Vec<&'static str> = accepted(ty).iter().filter(|t| in_group("SpanRole",t) || **t == "CoreferenceLink" || (in_group("Span",t))).cloned().collect();
        if !nested.is_empty() && depth < 3 { while self.budget > 0 && e.data.len() < 4 && g.chance(1,2) { let t = *g.pick(&nested); let s = self.span(g,t,depth+1); e = e.c(s); } }
        if accepts(ty,"WordReference") && (e.data.is_empty() || g.chance(1,2)) { self.wrefs(g,&mut e); }
        if g.chance(1,8) && ts(ty).annotationtype.is_some() && e.attr("CLASS").is_some() { let f = self.el(g,"Feature",true,9); e.data.insert(0,Node::El(f)); }
        self.noise(g,&mut e,true,6); e
    }
    pub fn layer(&mut self, g: &mut G) -> El {
        let ls = ["EntitiesLayer","ChunkingLayer","DependenciesLayer","SemanticRolesLayer","CoreferenceLayer","SyntaxLayer","TimingLayer","SentimentLayer","StatementLayer","ObservationLayer","ModalitiesLayer"];
        let l = *g.pick(&ls); let mut e = self.node(g,l);
        let spans: Vec<&'static str> = accepted(l).iter().filter(|t| in_group("Span",t)).cloned().collect();
        if spans.is_empty() { return e; }
        loop { let t = *g.pick(&spans); let s = self.span(g,t,0); e = e.c(s); if self.budget == 0 || !g.chance(1,2) { return e; } }
    }
    pub fn sentence(&mut self, g: &mut G) -> El {
        let mut s = self.node(g,"Sentence");
        if self.o.spans && g.chance(1,8) { let l = self.layer(g); s = s.c(l); }
        if g.chance(1,6) { let t = self.textcontent(g); s = s.c(t); }
        while self.budget > 0 && g.chance(4,5) { let ty = if g.chance(1,12) { "Hiddenword" } else { "Word" }; let w = if g.chance(1,12) { let mut q = self.node(g,"Quote"); let w = self.word(g,ty); q = q.c(w); q } else { self.word(g,ty) }; s = s.c(w); }
        if self.o.spans { while self.budget > 0 && g.chance(1,2) { let l = self.layer(g); s = s.c(l); } }
        self.noise(g,&mut s,false,4); s
    }
    pub fn realistic(&mut self, g: &mut G, body: &mut El) {
        self.budget = self.budget*2;
        loop {
            let mut p = match g.below(4) { 0|1 => None, 2 => Some(self.node(g,"Paragraph")), _ => { let t = *g.pick(&["Division","Head","Event","List","Quote","Note","Part"]); if accepts(&body.ty,t) { Some(self.node(g,t)) } else { None } } };
            let s = self.sentence(g);
            match p.as_mut() {
                Some(p) => { let (s,p2) = if p.ty == "List" { let mut i = self.node(g,"ListItem"); i = i.c(s); (i,p) } else { (s,p) }; p2.data.push(Node::El(s)); if g.chance(1,2) && self.budget > 0 && p2.ty != "List" { let s = self.sentence(g); p2.data.push(Node::El(s)); } if self.o.spans && self.budget > 0 && g.chance(1,6) { let l = self.layer(g); p2.data.push(Node::El(l)); } if g.chance(1,5) { let t = self.textcontent(g); p2.data.push(Node::El(t)); } }
                None => { body.data.push(Node::El(s)); }
            }
            if let Some(mut p) = p { self.noise(g,&mut p,false,2); body.data.push(Node::El(p)); }
            if self.budget == 0 || !g.chance(2,3) { break; }
        }
        if self.o.spans && g.chance(1,6) { let l = self.layer(g); body.data.push(Node::El(l)); }
    }
}
///Everything that is in the body goes a number of levels down
fn deepen(body: &mut El, n: usize) { let (ok,rest): (Vec<Node>,Vec<Node>) = body.data.drain(..).partition(|x| match x { Node::El(e) => accepts("Division",&e.ty) && accepts(&body.ty,"Division"), _ => false }); body.data = rest; if ok.is_empty() { return; } let mut d = El::new("Division"); d.data = ok; for _ in 1..n { let mut e = El::new("Division"); e.data.push(Node::El(d)); d = e; } body.data.push(Node::El(d)); join(body); }
///Gives every word reference a target (removes those for which there is none)
pub fn link(g: &mut G, body: &mut El, outside: &[String], any_target: bool) {
    let mut t: Vec<String> = outside.to_vec();
    body.visit(&mut |e| if ts(&e.ty).wrefable || (any_target && in_group("Structure",&e.ty) && !ts(&e.ty).textcontainer) { if let Some(i) = e.attr("ID") { t.push(i.to_string()) } });
    if t.is_empty() { body.retain(&|e| e.ty != "WordReference"); body.visit_mut(&mut join); return; }
    body.visit_mut(&mut |e| if e.ty != "WordReference" && e.attr("IDREF").is_some() && g.chance(1,2) { let i = g.below(t.len()); e.set_attr("IDREF",&t[i]); });
    body.visit_mut(&mut |e| if e.ty == "WordReference" && e.attr("IDREF").is_none() { let i = g.below(t.len()); e.attrs.push(("IDREF".into(),t[i].clone())); });
}

// ------------------------------------------------------------------------------------------------ header
pub fn proc(g: &mut G, n: &mut usize, plain: bool, depth: usize) -> Proc {
    *n += 1;
    let mut p = Proc { id: if plain || g.chance(3,4) { format!("proc.{}",n) } else { match g.below(9) { 3 => format!("proc.{} ",*n-1), 4 => format!("Proc.{}",*n-1), 5 => format!("proc.{}.",*n-1), 6 => format!(" proc.{}",*n-1), 7 => format!("proc.{}\u{a0}",*n-1), 8 => format!("{}",n), k => format!("{}{}",["p é","<p>","p&"][k],n) } }, name: if plain { format!("name{}",g.below(2)) } else { value(g) }, ty: g.pick(&["auto","manual","generator","datasource"]).to_string(), ..Default::default() };
    for k in ["version","folia_version","document_version","command","host","user","src","format","resourcelink","begindatetime","enddatetime"] { if g.chance(1,4) { let v = if k.ends_with("datetime") { datetime(g) } else if g.chance(1,8) { let v = value(g); if v.is_empty() { nonempty(g) } else { v } } else { nonempty(g) }; p.fields.push((k.into(),v)); } }
    while p.meta.len() < 3 && g.chance(1,4) { let k = if plain || p.meta.is_empty() || g.chance(1,2) { format!("m{}",p.meta.len()) } else { let s = g.pick(&p.meta).0.clone(); let k = near(g,&s); if p.meta.iter().any(|(n,_)| *n == k) { break; } k }; let v = if plain { "v".into() } else { anytext(g) }; p.meta.push((k,v)); }
    while depth < 4 && p.subs.len() < 4 && g.chance(1,4) { let s = proc(g,n,plain,depth+1); p.subs.push(s); }
    p
}
pub fn metadata(g: &mut G) -> Meta {
    let mut m = Meta::default();
    if g.chance(1,2) { m.ty = Some(value(g)); } if g.chance(1,4) { m.src = Some(value(g)); }
    while m.fields.len() < 6 && g.chance(3,5) { let k = if g.chance(3,4) { g.pick(&["title","author","language","date"]).to_string() } else if !m.fields.is_empty() && g.chance(1,2) { let s = g.pick(&m.fields).0.clone(); near(g,&s) } else { nonempty(g) }; if m.fields.iter().any(|(n,_)| *n == k) { continue; } let v = anytext(g); m.fields.push((k,v)); }
    m
}
pub fn annotationtypes_of(b: &El) -> Vec<&'static str> { let mut v = vec![]; b.visit(&mut |e| if let Some(a) = ts(&e.ty).annotationtype.as_deref() { if !v.contains(&a) { v.push(a) } }); v }
pub fn header(g: &mut G, d: &mut Doc, gen: &Gen) {
    let ats = annotationtypes_of(&d.body);
    let procs: Vec<String> = d.all_procs().iter().map(|p| p.id.clone()).collect();
    let all: Vec<&'static str> = spec().annotationtypes.keys().map(|s| s.as_str()).collect();
    let mut n = 0;
    let many = !gen.o.plain && g.chance(1,60); while (d.decs.len() < 12 && n < 20 || many && n < 300) && (g.chance(3,4) || many && g.chance(80,81)) {
        n += 1;
        let at = if ats.is_empty() || g.chance(1,6) { *g.pick(&all) } else { *g.pick(&ats) };
        let set = if g.chance(1,4) { None } else { Some(g.pick(&gen.sets).clone()) };
        if d.decs.iter().any(|x| x.at == at && x.set == set) { continue; }
        let mut annotators = vec![]; while !procs.is_empty() && g.chance(1,3) { let p = g.pick(&procs).clone(); if annotators.contains(&p) { break; } annotators.push(p); }
        let alias = if g.chance(1,8) { Some(if g.chance(1,4) { set.clone().unwrap_or_default() } else { format!("alias{}",n) }) } else { None };
        let format = if g.chance(1,8) { Some(nonempty(g)) } else { None };
        d.decs.push(Dec { at: at.into(), set, alias, format, annotators });
    }
}
pub fn doc(g: &mut G, o: Opts) -> Doc {
    let plain = o.plain;
    let mut d = Doc { id: if plain || g.chance(3,4) { "doc".into() } else { nonempty(g) }, ..Default::default() };
    let many = !plain && g.chance(1,100); let mut n = 0; while (many && n < 300 || d.procs.len() < 4) && (g.chance(1,2) || many && g.chance(60,61)) { d.procs.push(proc(g,&mut n,plain,0)); }
    let procs = d.all_procs().iter().map(|p| p.id.clone()).collect();
    let mut gen = Gen::new(g,o,procs);
    let ty = if g.chance(1,8) { "Speech" } else { "Text" };
    d.body = El::new(ty); if g.chance(1,2) { d.body.attrs.push(("ID".into(),"body".into())); }
    let mut body = d.body.clone(); if g.chance(1,2) || ty == "Speech" { let n = gen.budget; gen.fill(g,&mut body,ty,false,0); if gen.budget == n { gen.fill(g,&mut body,ty,false,0); } } else { gen.realistic(g,&mut body); join(&mut body); }
    if g.chance(1,150) { let n = *g.pick(&[20usize,60,70,130,260]); deepen(&mut body,n); }
    if gen.o.firm_features { firm_up(&mut body); }
    let any = g.chance(1,8); link(g,&mut body,&[],any);
    d.body = body;
    header(g,&mut d,&gen);
    if !plain && g.chance(1,2) { d.meta = metadata(g); }
    while !plain && d.submeta.len() < 3 && g.chance(1,5) { let mut m = metadata(g); m.id = if d.submeta.is_empty() || g.chance(2,3) { format!("sub.{}",d.submeta.len()) } else { let s = g.pick(&d.submeta).id.clone(); near(g,&s) }; if d.submeta.iter().any(|x| x.id == m.id) { continue; } d.submeta.push(m); }
    d
}
