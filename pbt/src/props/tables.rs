//! C17: the vocabulary tables.
use crate::{doc::*,engine::*,gen,dump::*,spec::*};
use super::io::*;
use folia::*;
use serde::{Serialize,Deserialize};
use std::str::FromStr;
use strum::IntoEnumIterator;

#[derive(Serialize,Deserialize)] pub struct Named { pub name: String }
fn eq<T: PartialEq+std::fmt::Debug>(a: T, b: T, what: &str) -> Res { if a == b { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}",what,a,b)) } }
fn nth<T>(g: &mut G, v: &[(&'static str,T)]) -> Named { Named { name: v[g.index % v.len()].0.to_string() } }

fn check_type(c: &Named, o: &mut Obs) -> Res {
    o.nontrivial = true; let t = et(&c.name); let s = ts(&c.name); let n = &c.name;
    let r = read_type(t); if r != *s { return Err(format!("{}: {:?} instead of {:?}",n,r,s)); }
    eq(Properties::new(t).annotationtype.map(at_name),s.annotationtype.as_deref(),&format!("annotation type in the properties of {}",n))?;
    let sp = Specification::default(); let p = sp.get(t); let q = Properties::new(t);
    let view = |p: &Properties| format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {} {:?} {:?}",p.xmltag,p.annotationtype.map(at_name),p.accepted_data.iter().map(|d| match d { AcceptedData::AcceptElementType(t) => et_name(*t), AcceptedData::AcceptElementGroup(g) => group_name(*g) }).collect::<Vec<_>>(),p.required_data.len(),p.required_attribs,p.optional_attribs,p.occurrences,p.occurrences_per_set,p.textdelimiter,[p.printable,p.speakable,p.hidden,p.xlink,p.textcontainer,p.phoncontainer].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),[p.auth,p.primaryelement,p.auto_generate_id,p.setonly,p.wrefable].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),p.subset,p.label);
    eq(view(p),view(&q),&format!("specification of {}",n))?;
    eq(format!("{}",t),s.tag.clone(),"displayed name")?; eq(format!("{:?}",t),s.tag.clone(),"debug name")?;
    let i: &str = t.into(); eq(i,s.tag.as_str(),"converted name")?;
    eq(ElementType::from_str(&s.tag).ok().map(et_name),Some(n.as_str()),&format!("element type of <{}>",s.tag))?;
    eq(ElementType::iter().filter(|x| *x == t).count(),1,"occurrences in the enumeration")?;
    eq(ElementType::iter().count(),ALL_ELEMENTTYPE.len(),"element types enumerated")?;
    for (m,u) in ALL_ELEMENTTYPE { if (*u == t) != (m == n) { return Err(format!("{} and {} are confused",m,n)); } if m != n && u.as_str() == t.as_str() { return Err(format!("{} and {} have the same tag",m,n)); } }
    for (gn,g) in ALL_ELEMENTGROUP {
        let want = in_group(gn,n); eq(g.contains(t),want,&format!("{} contains {}",gn,n))?; eq(t.is_in_group(*g),want,&format!("{} is in {}",n,gn))?; eq(g.elementtypes().iter().filter(|x| **x == t).count(),want as usize,&format!("{} in the list of {}",n,gn))?;
    }
    if let Some(a) = t.annotationtype() { let pe = a.elementtype(); eq(pe.annotationtype(),Some(a),&format!("annotation type of the primary element of {}",at_name(a)))?;
        if in_group("Layer",n) { let l = a.layertype(); if l.is_none() { return Err(format!("{} is a layer but {} has none",n,at_name(a))); } } }
    o.add(30); Ok(())
}
fn check_ann(c: &Named, o: &mut Obs) -> Res {
    o.nontrivial = true; let a = at(&c.name); let s = &spec().annotationtypes[&c.name];
    eq(&read_ann(a),s,&c.name)?;
    eq(format!("{}",a),s.name.clone(),"displayed name")?; let i: &str = a.into(); eq(i,s.name.as_str(),"converted name")?;
    let e: ElementType = a.into(); eq(et_name(e),s.elementtype.as_str(),"converted element type")?;
    eq(AnnotationType::from_str(&s.name).map(at_name),Some(c.name.as_str()),"annotation type of its name")?;
    eq(a.elementtype().annotationtype().map(at_name),Some(c.name.as_str()),"annotation type of its element type")?;
    eq(a.elementtype().as_str(),a.as_element_str(),"tag of its element type")?;
    eq(AnnotationType::iter().count(),ALL_ANNOTATIONTYPE.len(),"annotation types enumerated")?;
    for (m,b) in ALL_ANNOTATIONTYPE { if (*b == a) != (*m == c.name) || (*m != c.name && b.as_str() == a.as_str()) { return Err(format!("{} and {} are confused",m,c.name)); } }
    if let Some(l) = a.layertype() { if !in_group("Layer",et_name(l)) { return Err(format!("{} has the layer {}, which is none",c.name,l)); } }
    o.add(10); Ok(())
}
fn check_group(c: &Named, o: &mut Obs) -> Res { o.nontrivial = true; eq(&read_group(group(&c.name)),&spec().groups[&c.name],&format!("members of {}",c.name)) }
fn check_attr(c: &Named, o: &mut Obs) -> Res {
    o.nontrivial = true;
    let (_,a) = ALL_ATTRIBTYPE.iter().find(|(n,_)| *n == c.name).unwrap(); let s: &str = (*a).into(); eq(s,spec().attribs[&c.name].as_str(),&c.name)?; eq(format!("{}",a),s.to_string(),"displayed name")?;
    for (m,b) in ALL_ATTRIBTYPE { let t: &str = (*b).into(); if (b == a) != (*m == c.name) || (*m != c.name && t == s) { return Err(format!("{} and {} are confused",m,c.name)); } }
    for p in ["auto","manual","generator","datasource"] { let t = ptype_of(p); eq(t.as_str(),p,"processor type")?; eq(format!("{}",t),p.to_string(),"processor type")?; }
    o.add(40); Ok(())
}
///Names of older versions of FoLiA, of other formats and of the library's own source
const OLD: &[&str] = &["alt-mor","alternative","subentity","coreferencelink","coreferencechain","coreference","listitem","list-item","label","timedevent","timingevent","aref","errordetection","error","lang","language","complexalignment","complexalignments","alignment","alignments","correction","corrections","str","string","text","speech","phon","phoncontent","t-correction","t-error","t-gap","t-str","t-style","t-lang","t-ref","t-hbr","t-hspace","br","linebreak","whitespace","wordreference","wref","w","word","s","sentence","p","paragraph","div","division","head","h","list","li","item","table","row","cell","tablehead","figure","caption","gap","note","ref","reference","quote","q","event","ent","example","ex","def","definition","part","utt","utterance","morpheme","morph","phoneme","hiddenword","hiddenw","hidden","comment","desc","description","metric","observation","sentiment","statement","predicate","role","semrole","semanticrole","dep","dependency","hd","su","subsyntax","timesegment","ts","span","layer","feature","feat","external","foreign-data","foreigndata","relation","xref","linkreference","spanrelation","spanrelations","suggestion","original","new","current","processor","annotator","annotations","annotation","provenance","metadata","submetadata","meta","folia","FoLiA","token","tokens","pos","lemma","sense","domain","lexicalsemantic","entity","entities","chunk","chunking","chunks","syntax","su-layer","syntacticunit","modality","modalities","cue","scope","source","target","trigger","relationrole","style","rawcontent","morphology","phonology","postcorrection","spanrole","abstract","none","unknown","any","xml:id","xlink:href","href","xlink","id","xml","textclass","typegroup"];
fn vocabulary() -> Vec<String> { let mut pool: Vec<String> = vec![]; for t in spec().types.values() { pool.push(t.tag.clone()); } for a in spec().annotationtypes.values() { pool.push(a.name.clone()); } for a in spec().attribs.values() { pool.push(a.clone()); } for (n,_) in ALL_ELEMENTTYPE { pool.push(n.to_string()); } for (n,_) in ALL_ANNOTATIONTYPE { pool.push(n.to_string()); } for (n,_) in ALL_ATTRIBTYPE { pool.push(n.to_string()); } for (n,_) in ALL_ELEMENTGROUP { pool.push(n.to_string()); } for n in OLD { pool.push(n.to_string()); } pool.sort(); pool.dedup(); pool }
///Every name of the vocabulary, spelled otherwise
fn respelled() -> &'static Vec<String> { static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new(); V.get_or_init(|| {
    let mut v = vec![];
    for n in vocabulary() {
        let cap = |s: &str| { let mut c = s.chars(); c.next().map_or(String::new(),|f| f.to_uppercase().collect::<String>()+c.as_str()) };
        let split = |sep: &str| { let mut r = String::new(); let mut low = false; for c in n.chars() { if c.is_uppercase() && low { r.push_str(sep) } low = c.is_lowercase(); r.extend(c.to_lowercase()) } r };
        for x in [n.to_lowercase(),n.to_uppercase(),cap(&n),cap(&n.to_lowercase()),split("-"),split("_"),n.replace('-',"_"),n.replace('_',"-"),n.replace(&['-','_'][..],""),n.replace(':',""),n.split(|c| c == ':' || c == '-').last().unwrap_or("").to_string(),n.split(|c| c == ':' || c == '-').next().unwrap_or("").to_string(),
            format!("{}s",n),format!("{}es",n),format!(" {}",n),format!("{} ",n),format!("{}\n",n),format!("{}\0",n),format!("folia:{}",n),format!("FoLiA:{}",n),format!("xml:{}",n),format!("{}-annotation",n),format!("{}_annotation",n),format!("{}annotation",n),format!("{}Annotation",n),format!("{}Layer",n),format!("{}layer",n),format!("{}Feature",n),format!("<{}>",n),format!("{}/",n),format!("t-{}",n),format!("{0}{0}",n),n.chars().rev().collect(),n.chars().take(n.chars().count().saturating_sub(1)).collect(),n.chars().skip(1).collect(),n.clone()] { v.push(x) }
        for suf in ["Annotation","Layer","Feature","Content","Reference","Relation","layer","annotation","feature"] { if let Some(x) = n.strip_suffix(suf) { v.push(x.to_string()); v.push(x.to_lowercase()); v.push(split("-").trim_end_matches(|c: char| c != '-').trim_end_matches('-').to_string()); } }
    }
    v.sort(); v.dedup(); v }) }
fn name(g: &mut G) -> Named {
    if let Some(n) = respelled().get(g.index) { return Named { name: n.clone() }; }
    let pool = vocabulary();
    let mut s = g.pick(&pool).clone();
    for _ in 0..g.below(3) {
        let cs: Vec<char> = s.chars().collect(); let k = g.below(cs.len().max(1)); let mut v = cs.clone();
        match g.below(12) {
            0 => {} 1 => { if !v.is_empty() { v.remove(k); } } 2 => v.insert(k.min(v.len()),gen::uchar(g)), 3 => if !v.is_empty() { let c = v[k]; v.insert(k,c) }
            4 => if k+1 < v.len() { v.swap(k,k+1) } 5 => if !v.is_empty() { v[k] = if v[k].is_lowercase() { v[k].to_ascii_uppercase() } else { v[k].to_ascii_lowercase() } }
            6 => v = s.to_uppercase().chars().collect(), 7 => v.push(*g.pick(&[' ','\n','s','\0','-','1'])), 8 => v.insert(0,*g.pick(&[' ','f','-',':'])),
            9 => { let t = g.pick(&pool).clone(); v.extend(t.chars()) } 10 => v.truncate(k), _ => v = format!("{}{}",s,*g.pick(&["-annotation","annotation","feature","layer","s"])).chars().collect(),
        }
        s = v.into_iter().collect();
    }
    Named { name: s }
}
fn check_name(c: &Named, o: &mut Obs) -> Res {
    let e = ElementType::from_str(&c.name); let w = by_tag(&c.name); o.nontrivial(w.is_none()); o.label(if w.is_some() { "known tag" } else { "unknown tag" });
    eq(e.ok().map(et_name),w,&format!("element type of {:?}",c.name))?;
    let w = spec().annotationtypes.iter().find(|(_,a)| a.name == c.name).map(|(n,_)| n.as_str()); o.label(if w.is_some() { "known annotation type" } else { "unknown annotation type" });
    eq(AnnotationType::from_str(&c.name).map(at_name),w,&format!("annotation type of {:?}",c.name))
}
fn xmlname(s: &str) -> bool { let mut i = s.chars(); matches!(i.next(),Some(c) if c.is_alphabetic() || c == '_') && i.all(|c| c.is_alphanumeric() || "-_.".contains(c)) }
///The same names as tags and as declarations in a document
#[derive(Serialize,Deserialize)] pub struct InDoc { pub name: String, pub parent: String, pub declaration: bool, pub empty: bool }
fn in_doc(g: &mut G) -> InDoc {
    let all: Vec<&str> = spec().types.keys().map(|s| s.as_str()).filter(|t| gen::usable(t)).collect();
    let n = all.len(); let declaration = g.chance(1,2);
    let name = if g.index < n { spec().types[all[g.index]].tag.clone() } else if g.index < n+ALL_ANNOTATIONTYPE.len() { spec().annotationtypes[ALL_ANNOTATIONTYPE[g.index-n].0].name.clone() } else { let mut s = if g.chance(2,3) { g.pick(respelled()).clone() } else { name(g).name }; while !xmlname(&s) { if s.is_empty() { s = "word".into(); } else { s = s.chars().filter(|c| c.is_ascii_alphanumeric()).collect(); if s.chars().next().map_or(false,|c| c.is_ascii_digit()) { s.insert(0,'x') } } } s };
    let declaration = if g.index < n { false } else if g.index < n+ALL_ANNOTATIONTYPE.len() { true } else { declaration };
    let parents: Vec<&str> = match by_tag(&name) { Some(t) if !declaration => all.iter().cloned().filter(|p| accepts(p,t) && !in_group("TextMarkup",p) && ts(p).annotationtype.is_some()).collect(), _ => vec!["Paragraph"] };
    InDoc { name, parent: if parents.is_empty() { "Paragraph".into() } else { g.pick(&parents).to_string() }, declaration, empty: g.chance(1,2) }
}
fn check_in_doc(c: &InDoc, o: &mut Obs) -> Res {
    let head = |d: &str| format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xml:id=\"d\" version=\"2.1.0\"><metadata type=\"native\"><annotations>{}</annotations></metadata><text xml:id=\"d.text\">",d);
    if c.declaration {
        let xml = format!("{}</text></FoLiA>",head(&if c.empty { format!("<{}-annotation set=\"s\"/>",c.name) } else { format!("<{0}-annotation set=\"s\"></{0}-annotation>",c.name) }));
        let want = spec().annotationtypes.iter().find(|(_,a)| a.name == c.name).map(|(n,_)| n.as_str()); o.nontrivial = true; o.label(if want.is_some() { "declaration known" } else { "declaration unknown" });
        match (load(&xml,&Props::bare()),want) {
            (Ok(_),None) => Err(format!("declaration <{}-annotation> accepted",c.name)), (Err(e),Some(_)) => Err(format!("declaration <{}-annotation> refused: {}",c.name,e)), (Err(_),None) => Ok(()),
            (Ok(d),Some(w)) => { let got: Vec<_> = <Document as Store<Declaration,DecKey>>::iter(&d).flatten().map(|x| (at_name(x.annotationtype),x.set.clone())).collect(); eq(got,vec![(w,Some("s".into()))],"declarations")?; let x = xml_of(&d,0)?; if x.contains(&format!("<{}-annotation ",c.name)) { Ok(()) } else { Err(format!("declaration not written back: {}",x)) } }
        }
    } else {
        let p = ts(&c.parent); let want = by_tag(&c.name).filter(|t| *t != "Text" && gen::usable(t)); if want.is_none() && by_tag(&c.name).is_some() { return Ok(()); } if want.is_none() && c.name == "foreign-data" { return Ok(()); }
        if want == Some("WordReference") { return Ok(()); } if c.name == "desc" || c.name == "comment" || c.name == "content" { o.label("with text"); }
        let xml = format!("{}<{1}>{2}</{1}></text></FoLiA>",head(&p.annotationtype.iter().map(|a| format!("<{}-annotation/>",spec().annotationtypes[a].name)).collect::<String>()),p.tag,if c.empty { format!("<{}/>",c.name) } else { format!("<{0}></{0}>",c.name) });
        o.nontrivial = true; o.label(if want.is_some() { "tag known" } else { "tag unknown" });
        match (load(&xml,&Props::bare()),want) {
            (Ok(_),None) => Err(format!("<{}> accepted",c.name)), (Err(_),None) => Ok(()), (Err(e),Some(_)) => Err(format!("<{}> under <{}> refused: {}",c.name,p.tag,e)),
            (Ok(d),Some(w)) => { let b = body(&d)?; let got: Vec<&str> = b.roots.iter().flat_map(|t| { fn all<'a>(e: &'a DEl, v: &mut Vec<&'static str>) { v.push(e.ty); for x in e.data.iter() { if let DData::El(k) = x { all(k,v) } } } let mut v = vec![]; all(t,&mut v); v }).collect(); eq(got,vec!["Text",c.parent.as_str(),w],"elements")?; let x = xml_of(&d,0)?; if x.contains(&format!("<{}",c.name)) { Ok(()) } else { Err(format!("<{}> not written back: {}",c.name,x)) } }
        }
    }
}
pub fn c17() -> Prop { Prop { id: "C17", rule: "a case is one element type, annotation type, group or attribute type (enumerated exhaustively), or one generated name inside or near the vocabulary, alone or as a tag or declaration in a document; non-trivial: table entries, and names outside the vocabulary; distinct by content", assumptions: &["the FoLiA specification tables as generated into the pinned commit (pbt/spec/spec.json) are FoLiA's"],
    subs: vec![ sub("element-types",119,119,|g| nth(g,ALL_ELEMENTTYPE),check_type), sub("annotation-types",58,58,|g| nth(g,ALL_ANNOTATIONTYPE),check_ann), sub("groups",11,11,|g| nth(g,ALL_ELEMENTGROUP),check_group), sub("attributes",32,32,|g| nth(g,ALL_ATTRIBTYPE),check_attr),
        sub("names",40000,400000,name,check_name), sub("in-documents",10000,120000,in_doc,check_in_doc) ] } }
