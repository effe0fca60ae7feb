//! C19: attribute values.
use crate::{doc::*,engine::*,gen,model::Model,dump::*,spec::*,conv,xmlw};
use super::io::*;
use folia::*;
use serde::{Serialize,Deserialize};

const PLAIN: &[&str] = &["CONFIDENCE","DATETIME","N","ANNOTATOR","ANNOTATORTYPE","BEGINTIME","ENDTIME","SRC","SPEAKER","TEXTCLASS","METADATA","SPACE","TEXT","TYPE","AUTH","OFFSET","REF","ORIGINAL","LINENR","PAGENR","NEWPAGE","XLINKTYPE","HREF","FORMAT","IDREF","TAG"];
const ALL: &[&str] = &["CONFIDENCE","DATETIME","N","ANNOTATOR","ANNOTATORTYPE","BEGINTIME","ENDTIME","SRC","SPEAKER","TEXTCLASS","METADATA","SPACE","TEXT","TYPE","AUTH","OFFSET","REF","ORIGINAL","LINENR","PAGENR","NEWPAGE","XLINKTYPE","HREF","FORMAT","IDREF","TAG","ID","SET","CLASS","SUBSET","PROCESSOR"];
#[derive(PartialEq,Debug)] enum V { Is(String), Bad, Open }
fn date(v: &str) -> V {
    let t: String = v.chars().filter(|c| !c.is_whitespace()).collect(); let b = t.strip_prefix(&['+','-'][..]).unwrap_or(&t);
    let p: Vec<&str> = match b.split_once('T') { Some((d,t)) => d.split('-').chain(t.split(':')).collect(), None => return V::Bad };
    if p.len() != 6 || p.iter().any(|x| x.is_empty() || !x.bytes().all(|c| c.is_ascii_digit())) || p[1..].iter().any(|x| x.len() > 2) { return V::Bad; }
    if b.split_once('T').unwrap().0.split('-').count() != 3 { return V::Bad; }
    let n: Vec<u64> = p.iter().map(|x| x.parse().unwrap_or(u64::MAX)).collect(); let leap = n[0] % 4 == 0 && (n[0] % 100 != 0 || n[0] % 400 == 0); let days = [31,if leap {29} else {28},31,30,31,30,31,31,30,31,30,31];
    if n[0] <= 9999 && (n[1] == 0 || n[1] > 12 || n[2] == 0 || n[2] > days[n[1] as usize-1] || n[3] > 23 || n[4] > 59 || n[5] > 60) { return V::Bad; }
    if b == v && p[0].len() == 4 && p[1..].iter().all(|x| x.len() == 2) && n[5] < 60 { V::Is(v.into()) } else { V::Open }
}
fn judge(k: &str, v: &str) -> V { match k {
    "CONFIDENCE" => match v.parse::<f64>() { Ok(f) if f.is_finite() => V::Is(format!("{}",f)), Ok(_) => V::Open, Err(_) => V::Bad },
    "DATETIME" => date(v),
    "OFFSET"|"LINENR" => if !v.is_empty() && v.bytes().all(|c| c.is_ascii_digit()) { match v.parse::<u16>() { Ok(n) => V::Is(n.to_string()), Err(_) => V::Open } } else if v.starts_with('+') { V::Open } else { V::Bad },
    "SPACE"|"NEWPAGE" => match v { "yes"|"true" => V::Is("yes".into()), "no"|"false" => V::Is("no".into()), _ => V::Bad },
    "ANNOTATORTYPE" => if ["auto","manual","generator","datasource"].contains(&v) { V::Is(v.into()) } else { V::Bad },
    _ => V::Is(v.into())
} }
fn good(g: &mut G, k: &str) -> String { match k {
    "CONFIDENCE" => match g.below(3) { 0 => g.pick(&["0","1","0.5","0.123456789","0.0000001","100","1e-5","5E3","-0.25",".5","5.","0.1000","123456789.123456789","1e300","4.9e-324"]).to_string(), 1 => format!("0.{}",g.below(100000000)), _ => format!("{}{}.{}e{}{}",["","-"][g.below(2)],g.below(1000),g.below(1000000),["","-"][g.below(2)],g.below(40)) },
    "DATETIME" => format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",match g.below(3) { 0 => g.range(1990,2030), 1 => g.range(1,9999), _ => *g.pick(&[2000,1900,2024,2023,9999,1,1582]) },g.range(1,12),g.range(1,28),g.below(24),g.below(60),g.below(60)),
    "OFFSET"|"LINENR" => match g.below(3) { 0 => g.pick(&["0","1","255","256","65535","007","32768"]).to_string(), _ => g.below(65536).to_string() },
    "SPACE"|"NEWPAGE" => g.pick(&["no","yes","false","true"]).to_string(), "ANNOTATORTYPE" => g.pick(&["auto","manual","generator","datasource"]).to_string(),
    _ => gen::value(g)
} }
fn any(g: &mut G, k: &str) -> String {
    let mut v = good(g,k); if !g.chance(1,2) { return v; }
    match g.below(9) { 0 => String::new(), 1 => { v.pop(); v } 2 => { v.push(*g.pick(&[' ','0','x','Z','-','\n'])); v } 3 => format!("{}{}",*g.pick(&[" ","-","+","0"]),v), 4 => v.to_uppercase(), 5 => { let b: Vec<char> = v.chars().collect(); if b.is_empty() { return v; } let i = g.below(b.len()); let c = *g.pick(&['0','9','a',':','-','T','.']); b.iter().enumerate().map(|(j,x)| if j == i { c } else { *x }).collect() } 6 => g.pick(&["yes","no","1","0","Yes","maybe","on","NaN","inf","65536","99999999999","-1","1,5","0x10","2020-13-01T00:00:00","2021-02-29T00:00:00","2020-02-29T23:59:59","2020-01-01","2020-01-01T24:00:00","2020-01-01T00:60:00","2020-01-01 00:00:00","2020-01-01T00:00:00.5","2020-01-01T00:00:00Z","Auto","automatic","null"]).to_string(), 7 => { let k2 = *g.pick(PLAIN); good(g,k2) } _ => gen::value(g) }
}
// ------------------------------------------------------------------------------------------------ reading
#[derive(Serialize,Deserialize)] pub struct Read { pub ty: String, pub parent: String, pub attrs: Vec<Attr>, pub unknown: Option<(String,String)>, pub style: Vec<u8> }
fn types() -> Vec<&'static str> { gen::alltypes().iter().cloned().filter(|t| !["Text","Speech","WordReference","ForeignData"].contains(t) && parents(t).len() > 0).collect() }
fn parents(t: &str) -> Vec<&'static str> { gen::alltypes().iter().cloned().filter(|p| (t != "Feature" || ts(p).annotationtype.is_some()) && accepts(p,t) && !in_group("TextMarkup",p) && *p != "WordReference").collect() }
fn read_case(g: &mut G) -> Read {
    let ty = g.pick(&types()).to_string(); let parent = g.pick(&parents(&ty)).to_string(); let mut attrs: Vec<Attr> = vec![];
    while attrs.len() < 6 && (attrs.is_empty() || g.chance(1,2)) { let k = *g.pick(PLAIN); if attrs.iter().any(|(n,_)| n == k) { continue; } let v = if attrs.is_empty() { any(g,k) } else { good(g,k) }; attrs.push((k.into(),v)); }
    let unknown = if g.chance(1,5) { let (_,x) = g.pick(xmlw::ATTR_XML); let mut s = x.to_string(); match g.below(6) { 0 => { s.pop(); } 1 => s.push('s'), 2 => s = s.to_uppercase(), 3 => { s.remove(0); } 4 => s = g.pick(&["classs","xmlid","foo","href","xlink","show","xml-id","lang","sett","annotator-type","words","processorid"]).to_string(), _ => { let i = g.below(s.len()); let c = s.as_bytes()[i] as char; s.insert(i,c) } } if s.is_empty() || s.contains(':') || s == "ID" || !s.as_bytes()[0].is_ascii_alphabetic() || s.starts_with("xml") { None } else { Some((s,gen::value(g))) } } else { None };
    let mut style = vec![]; if g.chance(1,2) { while style.len() < 12 && (style.is_empty() || g.chance(9,10)) { style.push(g.below(256) as u8) } }
    Read { ty, parent, attrs, unknown, style }
}
fn check_read(c: &Read, o: &mut Obs) -> Res {
    let ty = c.ty.as_str();
    let mut w = xmlw::Writer::new(xmlw::Style::new(&c.style));
    w.open("FoLiA",vec![("xmlns".into(),"http://ilk.uvt.nl/folia".into()),("xmlns:xlink".into(),"http://www.w3.org/1999/xlink".into()),("xml:id".into(),"d".into()),("version".into(),"2.1.0".into())],false);
    w.open("metadata",vec![("type".into(),"native".into())],false); w.open("annotations",vec![],false);
    let mut ats: Vec<&str> = vec![]; for t in [ty,c.parent.as_str()] { if let Some(a) = ts(t).annotationtype.as_deref() { if !ats.contains(&a) { ats.push(a); w.void(&format!("{}-annotation",spec().annotationtypes[a].name),vec![]); } } }
    w.close("annotations"); w.close("metadata"); w.open("text",vec![("xml:id".into(),"b".into())],false); w.open(tag(&c.parent),vec![],false);
    let mut a: Vec<Attr> = c.attrs.iter().map(|(k,v)| (xmlw::attr_xml(k),v.clone())).collect(); let mut unknown = false;
    if let Some((n,v)) = &c.unknown { if !xmlw::ATTR_XML.iter().any(|(_,x)| x == n) && n != "typegroup" && !gen::featured(ty).iter().any(|f| f == n) && !a.iter().any(|(x,_)| x == n) { if spec().types.values().any(|t| t.subset.as_deref() == Some(n)) { return Ok(()); } unknown = true; a.push((n.clone(),v.clone())); } }
    if ty == "Feature" { a.push(("subset".into(),"s".into())); a.push(("class".into(),"c".into())); }
    w.open(tag(ty),a,false); w.close(tag(ty)); w.close(tag(&c.parent)); w.close("text"); w.close("FoLiA"); let xml = w.out;
    let v: Vec<V> = c.attrs.iter().map(|(k,v)| judge(k,v)).collect();
    let bad = unknown || v.iter().any(|x| *x == V::Bad); o.nontrivial = true;
    for ((k,_),x) in c.attrs.iter().zip(v.iter()) { if !["N","ANNOTATOR","BEGINTIME"].contains(&k.as_str()) { o.label(&format!("{} {}",k,match x { V::Is(_) => "valid", V::Bad => "invalid", V::Open => "open" })); } } if unknown { o.label("unknown attribute"); }
    let d = match load(&xml,&Props::bare()) { Err(e) => return if bad { Ok(()) } else if v.iter().any(|x| *x == V::Open) { Ok(()) } else { Err(format!("refused: {}\n{}",e,xml)) }, Ok(_) if bad => return Err(format!("accepted with {}\n{}",if unknown { format!("the unknown attribute {:?}",c.unknown) } else { "an invalid value".into() },xml)), Ok(d) => d };
    let b = body(&d)?; let e = (|| { let p = b.roots.first()?.data.iter().find_map(|x| if let DData::El(e) = x { Some(e) } else { None })?; p.data.iter().find_map(|x| if let DData::El(e) = x { Some(e) } else { None }) })().ok_or_else(|| format!("element not found\n{}",xml))?; if e.ty != ty { return Err(format!("element is a {}",e.ty)); }
    let keys = dump(&d,&roots(&d))?.1; let data = <Document as Store<ElementData,ElementKey>>::get(&d,keys[2]).ok_or("no element")?;
    let x = xml_of(&d,0)?; let r = conv::read_doc(x.as_bytes()).map_err(|e| format!("{}\n{}",e,x))?; let rp = r.body.kids().next().ok_or("nothing written")?; let re = rp.kids().next().ok_or_else(|| format!("element not written\n{}",x))?;
    for (k,j) in PLAIN.iter().map(|k| (*k,c.attrs.iter().position(|(n,_)| n == k))) {
        let at = ALL_ATTRIBTYPE.iter().find(|(n,_)| *n == k).unwrap().1; let got = data.attrib(at);
        match j { None => { if got.is_some() || data.has_attrib(at) || re.attr(k).is_some() { return Err(format!("{} appears from nowhere\n{}\n{}",k,xml,x)); } }
            Some(j) => { let want = match &v[j] { V::Is(s) => s.clone(), _ => continue }; let got = got.ok_or_else(|| format!("{} was lost\n{}",k,xml))?;
                if !data.has_attrib(at) || got.attribtype() != at { return Err(format!("{} is not found by its type",k)); }
                let made = attr_make(k,&want); if *got != made || !got.sametype(&made) { return Err(format!("{} is {:?} instead of {:?}\n{}",k,got,made,xml)); }
                eq(got.to_string().map_err(|e| format!("{}",e))?,want.clone(),"to_string()")?; eq(format!("{}",got),want.clone(),"display")?; if let Ok(s) = got.as_str() { eq(s,want.as_str(),"as_str()")?; } else if !["CONFIDENCE","DATETIME","OFFSET","LINENR"].contains(&k) { return Err(format!("{} has no as_str()",k)); }
                match re.attr(k) { None => return Err(format!("{} was not written\n{}",k,x)), Some(s) => if judge(k,s) != V::Is(want.clone()) { return Err(format!("{} written as {:?} instead of {:?}\n{}",k,s,want,x)); } }
                if k == "CONFIDENCE" && data.confidence() != want.parse().ok() { return Err(format!("confidence() is {:?}",data.confidence())); } if k == "IDREF" && data.idref() != Some(want.as_str()) { return Err(format!("idref() is {:?}",data.idref())); }
            } }
    }
    if data.attribs().iter().filter(|a| PLAIN.iter().any(|k| attr_view(a).map_or(false,|(n,_)| n == *k))).count() != c.attrs.len() { return Err(format!("attributes are {:?}\n{}",data.attribs(),xml)); }
    o.add(c.attrs.len() as u64); Ok(())
}
fn eq<T: PartialEq+std::fmt::Debug>(a: T, b: T, what: &str) -> Res { if a == b { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}",what,a,b)) } }
// ------------------------------------------------------------------------------------------------ editing
///References are made with REF:kind
#[derive(Serialize,Deserialize,Debug)] pub enum Op { Set(String,String), With(String,String), Del(String), All(Vec<Attr>) }
#[derive(Serialize,Deserialize)] pub struct Edits { pub ops: Vec<Op>, pub a: Vec<(String,String,String,String)> }
const REFS: &[&str] = &["REF:SET","REF:CLASS","REF:PROCESSOR","REF:SUBSET"];
fn mk(k: &str, v: &str) -> Attribute { let n = || v.parse::<u64>().unwrap_or(0); match k { "REF:SET" => Attribute::DeclarationRef(n() as DecKey), "REF:CLASS" => Attribute::ClassRef(n() as ClassKey), "REF:PROCESSOR" => Attribute::ProcessorRef(n() as ProcKey), "REF:SUBSET" => Attribute::SubsetRef(n() as SubsetKey), _ => attr_make(k,v) } }
fn kind(k: &str) -> &str { k.strip_prefix("REF:").unwrap_or(k) }
fn at_of(k: &str) -> AttribType { ALL_ATTRIBTYPE.iter().find(|(n,_)| *n == kind(k)).unwrap().1 }
fn anykind(g: &mut G, refs: bool) -> String { if refs && g.chance(1,4) { g.pick(REFS).to_string() } else if g.chance(1,3) { g.pick(&["ID","SET","CLASS","SUBSET","PROCESSOR"]).to_string() } else { g.pick(ALL).to_string() } }
fn canon(g: &mut G, k: &str) -> String { if k.starts_with("REF:") { g.below(5).to_string() } else { loop { if let V::Is(v) = judge(k,&good(g,k)) { return v; } } } }
fn edits(g: &mut G) -> Edits {
    let refs = g.chance(1,2); let few: Vec<String> = (0..4).map(|_| anykind(g,refs)).collect(); let mut ops = vec![];
    while ops.len() < 30 && g.chance(19,20) { let k = if g.chance(1,2) { g.pick(&few).clone() } else { anykind(g,refs) }; ops.push(match g.below(12) { 0..=4 => { let v = canon(g,&k); Op::Set(k,v) } 5..=6 => { let v = canon(g,&k); Op::With(k,v) } 7..=10 => Op::Del(k), _ => { let mut a: Vec<Attr> = vec![]; while a.len() < 5 && g.chance(3,4) { let k = anykind(g,refs); if a.iter().any(|(n,_)| kind(n) == kind(&k)) { continue; } let v = canon(g,&k); a.push((k,v)); } Op::All(a) } }); }
    let mut a = vec![]; while a.len() < 4 && g.chance(2,3) { let (k,l) = (anykind(g,true),anykind(g,true)); let (v,w) = (canon(g,&k),canon(g,&l)); a.push((k,v,l,w)); }
    Edits { ops, a }
}
fn check_edits(c: &Edits, o: &mut Obs) -> Res {
    let mut d = ElementData::new(ElementType::Word); let mut m: Vec<Attr> = vec![]; let mut replaced = 0;
    for (i,op) in c.ops.iter().enumerate() {
        let at = |e: String| format!("after operation {} ({:?}): {}",i,op,e);
        match op {
            Op::Set(k,v) => { if m.iter().any(|(n,_)| kind(n) == kind(k)) { replaced += 1; } m.retain(|(n,_)| kind(n) != kind(k)); m.push((k.clone(),v.clone())); d.set_attrib(mk(k,v)); }
            Op::With(k,v) => { if m.iter().any(|(n,_)| kind(n) == kind(k)) { replaced += 1; } m.retain(|(n,_)| kind(n) != kind(k)); m.push((k.clone(),v.clone())); d = d.with_attrib(mk(k,v)); }
            Op::Del(k) => { let had = m.iter().position(|(n,_)| kind(n) == kind(k)).map(|i| m.remove(i)); if had.is_some() { replaced += 1; } let got = d.del_attrib(at_of(k)); if got != had.as_ref().map(|(k,v)| mk(k,v)) { return Err(at(format!("del_attrib returned {:?} instead of {:?}",got,had))); } }
            Op::All(a) => { m = a.clone(); let v = a.iter().map(|(k,v)| mk(k,v)).collect(); if i % 2 == 0 { d.set_attribs(v) } else { d = d.with_attribs(v) } }
        }
        for k in ALL { let want = m.iter().find(|(n,_)| kind(n) == *k).map(|(k,v)| mk(k,v)); let got = d.attrib(at_of(k)); if got != want.as_ref() || d.has_attrib(at_of(k)) != want.is_some() { return Err(at(format!("{}: {:?} (present: {}) instead of {:?}",k,got,d.has_attrib(at_of(k)),want))); } }
        if d.attribs().len() != m.len() { return Err(at(format!("attributes {:?} instead of {:?}",d.attribs(),m))); }
        let get = |k: &str| m.iter().find(|(n,_)| n == k).map(|(_,v)| v.as_str());
        let e = |x: Result<Option<&str>,FoliaError>| x.map(|s| s.map(|s| s.to_string())).map_err(|e| format!("{}",e));
        (|| { eq(d.id(),get("ID"),"id()")?; eq(d.idref(),get("IDREF"),"idref()")?; eq(d.confidence(),get("CONFIDENCE").map(|v| v.parse().unwrap()),"confidence()")?;
            if !m.iter().any(|(n,_)| n.starts_with("REF:")) { for (k,x) in [("CLASS",d.class()),("SET",d.set()),("SUBSET",d.subset()),("PROCESSOR",d.processor())] { eq(e(x)?,get(k).map(|s| s.to_string()),k)?; } }
            if !m.iter().any(|(n,_)| ["CLASS","SET","SUBSET","PROCESSOR"].contains(&n.as_str())) { let n = |k: &str| get(k).map(|v| v.parse::<u64>().unwrap()); let f = |x: FoliaError| format!("{}",x);
                eq(d.class_key().map_err(f)?.map(|x| x as u64),n("REF:CLASS"),"class_key()")?; eq(d.declaration_key().map_err(f)?.map(|x| x as u64),n("REF:SET"),"declaration_key()")?; eq(d.processor_key().map_err(f)?.map(|x| x as u64),n("REF:PROCESSOR"),"processor_key()")?; eq(d.subset_key().map_err(f)?.map(|x| x as u64),n("REF:SUBSET"),"subset_key()")?; }
            //an attribute is never reported missing because it is held in the other form
            for (k,x) in [("CLASS",d.class()),("SET",d.set()),("SUBSET",d.subset()),("PROCESSOR",d.processor())] {
                match (e(x).ok(),get(k),get(&format!("REF:{}",k))) { (None,_,_) | (Some(None),None,None) => {}, (Some(Some(x)),Some(y),_) if x == y => {}, (x,y,r) => return Err(format!("{}() is {:?}, the attribute is {:?} or by reference {:?}",k,x,y,r)) } }
            let r = |x: Option<u64>| x.map(|x| x.to_string());
            for (k,x) in [("CLASS",d.class_key().map(|x| x.map(|x| x as u64))),("SET",d.declaration_key().map(|x| x.map(|x| x as u64))),("SUBSET",d.subset_key().map(|x| x.map(|x| x as u64))),("PROCESSOR",d.processor_key().map(|x| x.map(|x| x as u64)))] {
                match (x.ok().map(r),get(k),get(&format!("REF:{}",k))) { (None,_,_) | (Some(None),None,None) => {}, (Some(Some(x)),_,Some(y)) if x == y => {}, (x,y,r) => return Err(format!("the key of {} is {:?}, the attribute is {:?} or by reference {:?}",k,x,y,r)) } }
            Ok(()) })().map_err(at)?;
    }
    for (k,v,l,w) in c.a.iter() { let (x,y) = (mk(k,v),mk(l,w)); eq(x.sametype(&y),kind(k) == kind(l),&format!("{} and {} are of the same type",k,l))?; eq(x == y,k == l && v == w,&format!("{:?} and {:?} are equal",x,y))?; eq(attribtype_name(x.attribtype()),kind(k),"attribute type")?;
        eq(x.decodable(),k.starts_with("REF:"),&format!("{} is decodable",k))?; eq(x.encodable(),["SET","CLASS","SUBSET","PROCESSOR"].contains(&k.as_str()),&format!("{} is encodable",k))?;
        eq(attribtype_name(x.attribtypeclass()),match kind(k) { "SET" => "CLASS", "PROCESSOR"|"ANNOTATORTYPE" => "ANNOTATOR", k => k },"attribute type class")?;
        if k.starts_with("REF:") { if x.to_string().is_ok() || x.as_str().is_ok() { return Err(format!("{:?} has a string value",x)); } } else { eq(x.to_string().map_err(|e| format!("{}",e))?,v.clone(),"to_string()")?; } o.add(1); }
    o.nontrivial(replaced >= 1 && c.ops.len() >= 3); if c.ops.iter().any(|o| matches!(o,Op::Set(k,_) if k.starts_with("REF:"))) { o.label("references"); } Ok(())
}
// ------------------------------------------------------------------------------------------------ editing a document
#[derive(Serialize,Deserialize)] pub struct DocEdits { pub doc: Doc, pub ops: Vec<(usize,Op)> }
fn doc_edits(g: &mut G) -> DocEdits { let doc = firm_doc(g).doc; let mut ops = vec![]; while ops.len() < 15 && (ops.is_empty() || g.chance(9,10)) { let k = g.pick(PLAIN).to_string(); let i = g.below(64); ops.push((i,if g.chance(2,3) { let v = canon(g,&k); Op::Set(k,v) } else { Op::Del(k) })); } DocEdits { doc, ops } }
fn check_doc_edits(c: &DocEdits, o: &mut Obs) -> Res {
    let props = Props::bare(); let mut m = Model::load(&c.doc,&props)?; let mut d = load(&xmlw::plain(&c.doc),&props)?;
    let (_,mk_) = dump_model(&m,&m.roots()); let keys = dump(&d,&roots(&d))?.1; if keys.len() != mk_.len() { return Err("elements differ".into()); }
    for (i,op) in c.ops.iter() {
        let i = i % keys.len(); let ty = m.els[mk_[i]].ty; let e = <Document as Store<ElementData,ElementKey>>::get_mut(&mut d,keys[i]).ok_or("no element")?;
        match op { Op::Set(k,v) => { if k == "IDREF" && ty == "WordReference" { continue; } e.set_attrib(mk(k,v)); let a = &mut m.els[mk_[i]].attrs; a.retain(|(n,_)| n != k); a.push((k.clone(),v.clone())); }
            Op::Del(k) => { if k == "IDREF" && ty == "WordReference" { continue; } e.del_attrib(at_of(k)); m.els[mk_[i]].attrs.retain(|(n,_)| n != k); } _ => {} }
        o.nontrivial(keys.len() >= 3); o.add(1);
    }
    let want = model_dump(&m); expect(&body(&d)?,&want,"edited document")?; says_what_it_holds(&d,&[0,4])?;
    roundtrips(d,&[2])
}
pub fn c19() -> Prop { Prop { id: "C19", rule: "a case is one element with generated attributes, valid or not, read from XML; or a history of attribute edits on an element, compared with a list of attributes after every step; or a generated document with attributes of its elements edited, saved and reloaded; non-trivial: every read case, histories that replace or remove something, documents of at least three elements; distinct by content", assumptions: &["date-times beyond the plain form, infinite numbers, signs on counts and counts over 65535 are left open"],
    subs: vec![ sub("read",30000,600000,read_case,check_read), sub("edit",20000,400000,edits,check_edits), sub("edit-document",3000,60000,doc_edits,check_doc_edits) ] } }
