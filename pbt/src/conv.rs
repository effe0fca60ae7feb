//! From XML (as read by the strict reader) to document descriptions: what the XML says.
use crate::doc::*;
use crate::xmlr::*;
use crate::spec::*;
use crate::xmlw::attr_of_xml;

pub const NS: &str = "http://ilk.uvt.nl/folia";
fn attr<'a>(x: &'a XEl, n: &str) -> Option<&'a str> { x.attrs.iter().find(|(k,_)| k == n).map(|(_,v)| v.as_str()) }
fn attr_s(x: &XEl, n: &str) -> Option<String> { attr(x,n).map(|s| s.to_string()) }
fn ns(x: &XEl) -> Result<(),String> { if x.ns.as_deref() == Some(NS) { Ok(()) } else { Err(format!("<{}> is not in the FoLiA namespace but in {:?}",x.qname,x.ns)) } }
fn known(x: &XEl, names: &[&str]) -> Result<(),String> { for (k,_) in x.attrs.iter() { if !names.contains(&k.as_str()) { return Err(format!("unexpected attribute {} on <{}>",k,x.qname)) } } Ok(()) }
pub fn blank(s: &str) -> bool { s.chars().all(|c| matches!(c,' '|'\t'|'\n'|'\r')) }
fn kids(x: &XEl) -> Result<Vec<&XEl>,String> { ns(x)?; x.kids.iter().filter_map(|k| match k { XNode::El(e) => Some(Ok(e)), XNode::Text(t) if !blank(t) => Some(Err(format!("unexpected text {:?} in <{}>",t,x.qname))), _ => None }).collect() }
fn only_text(x: &XEl) -> Result<String,String> { ns(x)?; let mut s = String::new(); for k in x.kids.iter() { match k { XNode::Text(t) => s.push_str(t), _ => return Err(format!("unexpected markup in <{}>",x.qname)) } } Ok(s) }
fn canonical(k: &str, v: &str) -> String {
    match k { "CONFIDENCE" => v.parse::<f64>().map_or(v.to_string(),|f| format!("{}",f)), "SPACE"|"NEWPAGE" => match v { "yes"|"true" => "yes".into(), "no"|"false" => "no".into(), v => v.to_string() }, _ => v.to_string() }
}
pub fn el(x: &XEl, inline: bool) -> Result<El,String> {
    ns(x)?;
    let ty = by_tag(&x.local).ok_or_else(|| format!("unknown element <{}>",x.local))?;
    let mut e = El::new(ty);
    for (k,v) in x.attrs.iter() {
        let kind = match attr_of_xml(k) { Some(a) => a.to_string(), None if crate::gen::featured(ty).contains(&k.as_str()) => format!("FEAT:{}",k), None => return Err(format!("unknown attribute {} on <{}>",k,x.local)) };
        e.attrs.push((kind.clone(),canonical(&kind,v)));
    }
    let inline = inline || ts(ty).textcontainer || x.kids.iter().any(|k| matches!(k,XNode::Text(t) if !blank(t)));
    for k in x.kids.iter() { match k {
        XNode::El(c) => e.data.push(Node::El(el(c,inline)?)),
        XNode::Comment(c) => e.data.push(Node::Comment(c.clone())),
        XNode::Text(t) if blank(t) => if inline { return Err(format!("white space ({:?}) inside the text of <{}>",t,x.local)) },
        XNode::Text(t) => e.data.push(Node::Text(t.clone())),
    } }
    Ok(e)
}
fn meta(x: &XEl) -> Result<Attr,String> { known(x,&["id","xml:id"])?; let k = attr_s(x,"id").or(attr_s(x,"xml:id")).ok_or("meta without id")?; Ok((k,only_text(x)?)) }
fn proc(x: &XEl) -> Result<Proc,String> {
    let mut p = Proc { ty: "auto".into(), ..Default::default() };
    for (k,v) in x.attrs.iter() { match k.as_str() { "xml:id" => p.id = v.clone(), "name" => p.name = v.clone(), "type" => p.ty = v.clone(), "version"|"folia_version"|"document_version"|"command"|"host"|"user"|"src"|"format"|"resourcelink"|"begindatetime"|"enddatetime" => p.fields.push((k.clone(),v.clone())), _ => return Err(format!("unexpected attribute {} on <processor>",k)) } }
    for c in kids(x)? { match c.local.as_str() { "processor" => p.subs.push(proc(c)?), "meta" => p.meta.push(meta(c)?), t => return Err(format!("unexpected <{}> in <processor>",t)) } }
    Ok(p)
}
pub fn doc(x: &XEl) -> Result<Doc,String> {
    ns(x)?; if x.local != "FoLiA" { return Err(format!("root element <{}>",x.local)); }
    let mut d = Doc { id: attr_s(x,"xml:id").ok_or("no document id")?, ..Default::default() };
    known(x,&["xml:id","version","generator"])?;
    let mut body = None; let mut md = false;
    for k in kids(x)? { match k.local.as_str() {
        "metadata" => {
            if md || body.is_some() { return Err("misplaced <metadata>".into()); } md = true;
            known(k,&["type","src"])?; d.meta.ty = attr_s(k,"type"); d.meta.src = attr_s(k,"src");
            for m in kids(k)? { match m.local.as_str() {
                "annotations" => { known(m,&[])?; for a in kids(m)? { ns(a)?;
                    let name = a.local.strip_suffix("-annotation").ok_or_else(|| format!("<{}> in <annotations>",a.local))?;
                    let at = spec().annotationtypes.iter().find(|(_,v)| v.name == name).map(|(k,_)| k.clone()).ok_or_else(|| format!("unknown declaration {}",name))?;
                    known(a,&["set","alias","format"])?;
                    let mut dec = Dec { at, set: attr_s(a,"set"), alias: attr_s(a,"alias"), format: attr_s(a,"format"), annotators: vec![] };
                    for n in kids(a)? { ns(n)?; if n.local != "annotator" { return Err(format!("<{}> in a declaration",n.local)); } known(n,&["processor"])?; if !kids(n)?.is_empty() { return Err("<annotator> is not empty".into()); } dec.annotators.push(attr_s(n,"processor").ok_or("annotator without processor")?); }
                    d.decs.push(dec);
                } }
                "provenance" => { known(m,&[])?; for p in kids(m)? { if p.local != "processor" { return Err(format!("<{}> in <provenance>",p.local)); } d.procs.push(proc(p)?); } }
                "meta" => d.meta.fields.push(meta(m)?),
                "submetadata" => { known(m,&["xml:id","type","src"])?; let mut s = Meta { id: attr_s(m,"xml:id").ok_or("submetadata without id")?, ty: attr_s(m,"type"), src: attr_s(m,"src"), fields: vec![] }; for f in kids(m)? { if f.local != "meta" { return Err(format!("<{}> in <submetadata>",f.local)); } s.fields.push(meta(f)?); } d.submeta.push(s); }
                t => return Err(format!("unexpected <{}> in <metadata>",t)),
            } }
        }
        "text"|"speech" => { if body.is_some() { return Err("two bodies".into()); } body = Some(el(k,false)?); }
        t => return Err(format!("unexpected <{}> in the document",t)),
    } }
    if !md { return Err("no <metadata>".into()); }
    d.body = body.ok_or("no body")?;
    Ok(d)
}
pub fn read_doc(xml: &[u8]) -> Result<Doc,String> { doc(&read(xml,&[]).map_err(|e| format!("not well-formed: {}",e))?) }
///XML of a single element
pub fn read_el(xml: &str) -> Result<El,String> { el(&read(xml.as_bytes(),&[(String::new(),NS.into()),("xlink".into(),"http://www.w3.org/1999/xlink".into())]).map_err(|e| format!("not well-formed: {}",e))?,false) }
