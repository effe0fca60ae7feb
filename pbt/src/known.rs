//! Probes for the known findings (known_findings.json): each shows one specific input that fails on the current tree.
//! A probe only decides whether the line KNOWN-FINDING is printed; it suppresses nothing. What the searches leave out
//! because of a finding is stated in DESIGN.md.
use folia::*;

fn doc(xml_body: &str, decs: &str) -> Result<Document,FoliaError> {
    Document::from_str(&format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" version=\"2.1.0\" xml:id=\"d\"><metadata type=\"native\"><annotations>{}</annotations></metadata><text xml:id=\"t\">{}</text></FoLiA>",decs,xml_body),DocumentProperties { declare: vec![], ..Default::default() })
}
const TEXTDEC: &str = "<text-annotation set=\"https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl\"/>";

type Probe = fn()->Option<bool>;
fn probes() -> Vec<(&'static str,Probe)> { vec![
    ("blank-text-between-markup",|| {
        let d = doc("<w xml:id=\"w\"><t class=\"current\">a <t-str>b</t-str> <t-str>c</t-str></t></w>",TEXTDEC).ok()?;
        let t = d.get_element_by_id("w")?.text(&TextParameters::default()).ok()?; Some(t != "a b c") }),
    ("blank-cdata",|| {
        let d = doc("<w xml:id=\"w\"><t class=\"current\">a<![CDATA[ ]]>b</t></w>",TEXTDEC).ok()?;
        let t = d.get_element_by_id("w")?.text(&TextParameters::default()).ok()?; Some(t != "a b") }),
    ("feature-without-set-of-its-own",|| {
        let d = doc("<metric xml:id=\"e\"><feat subset=\"x\" class=\"y\"/></metric><metric set=\"b\"/>","<metric-annotation set=\"a\"/>").ok()?;
        let again = Document::from_str(&String::from_utf8(d.xml(0,0).ok()?).ok()?,DocumentProperties { declare: vec![], ..Default::default() }).ok()?;
        let set = |d: &Document| -> Option<String> { let e = d.get_element_by_id("e")?; let f = e.get_feature(Cmp::Any)?; f.set().map(|s| s.to_string()) };
        Some(set(&d) != set(&again)) }),
    ("class-without-annotation-type",|| {
        let d = doc("<figure xml:id=\"f\"><caption xml:id=\"c\" class=\"x\"/></figure>","<figure-annotation set=\"s\"/>").ok()?;
        let c = d.get_element_by_id("c")?; Some(c.class() != Some("x")) }),
    ("feature-under-element-without-annotation-type",|| Some(doc("<list xml:id=\"l\"><item xml:id=\"i\" class=\"x\"><feat subset=\"a\" class=\"b\"/></item></list>","<list-annotation set=\"s\"/>").is_err())),
    ("inclusive-selection-of-detached",|| {
        let mut d = doc("<s xml:id=\"s\"><w xml:id=\"w\"/></s>","<token-annotation/><sentence-annotation/>").ok()?;
        let w = d.get_element_key_by_id("w")?; d.detach_element(w).ok()?;
        let got: Vec<Option<ElementKey>> = d.select_by_key(w,Selector::elements(),Recursion::Always,true,false).map(|e| e.element.key()).collect();
        let ids: Vec<Option<String>> = d.select_by_key(w,Selector::elements(),Recursion::Always,true,false).map(|e| e.element.id().map(|s| s.to_string())).collect();
        Some(got.len() != 1 || got[0] != Some(w) || ids[0].as_deref() != Some("w")) }),
    ("ancestors-by-group-and-set",|| {
        let d = doc("<s xml:id=\"s\" set=\"x\"><w xml:id=\"w\"/></s>","<token-annotation/><sentence-annotation set=\"x\"/>").ok()?;
        let w = d.get_element_by_id("w")?; let r = w.get_ancestor_by_group(ElementGroup::Structure,Cmp::Is("x".to_string())).is_none(); Some(r) }),
    ("text-of-another-set",|| {
        let d = doc("<w xml:id=\"w\"><t set=\"x\" class=\"current\">one</t></w><w xml:id=\"v\"><t set=\"y\" class=\"current\">two</t></w>","<text-annotation set=\"x\"/><text-annotation set=\"y\"/><token-annotation/>").ok()?;
        let r = d.get_element_by_id("w")?.text(&TextParameters::new().set("y")).ok().as_deref() == Some("one"); Some(r) }),
] }

///The findings listed for the property that still show
pub fn known(id: &str) -> Vec<String> {
    let path = ["known_findings.json","/verif/known_findings.json"].into_iter().find(|p| std::path::Path::new(p).exists());
    let v: serde_json::Value = match path.and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()) { Some(v) => v, None => return vec![] };
    let ps = probes();
    v["findings"].as_array().map(|a| a.iter().filter(|f| f["property"] == id).filter(|f| { let name = f["probe"].as_str().unwrap_or("").to_string();
        let p = ps.iter().find(|p| p.0 == name).map(|p| p.1); p.map_or(false,|p| crate::engine::guarded(|| p()).ok().flatten().unwrap_or(false)) }).map(|f| f["what"].as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}
///For maintenance: what every probe says
pub fn show() { for (n,p) in probes() { println!("{}: {:?}",n,crate::engine::guarded(|| p())); } }
