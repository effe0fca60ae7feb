//! A small, strict, namespace-aware XML 1.0 reader (no DTDs), written for this harness so that what the
//! library writes is judged by something other than the library's own parser.
#[derive(Debug,Clone,PartialEq)]
pub struct XEl { pub ns: Option<String>, pub local: String, pub qname: String, pub attrs: Vec<(String,String)>, pub kids: Vec<XNode> }
#[derive(Debug,Clone,PartialEq)]
pub enum XNode { El(XEl), Text(String), Comment(String) }

thread_local! { ///CDATA sections are kept apart from the text around them
    pub static SPLIT: std::cell::Cell<bool> = std::cell::Cell::new(false); }
struct P<'a> { s: &'a [u8], i: usize }
fn namestart(c: char) -> bool {
    c == '_' || c == ':' || c.is_ascii_alphabetic() || matches!(c as u32, 0xC0..=0xD6|0xD8..=0xF6|0xF8..=0x2FF|0x370..=0x37D|0x37F..=0x1FFF|0x200C..=0x200D|0x2070..=0x218F|0x2C00..=0x2FEF|0x3001..=0xD7FF|0xF900..=0xFDCF|0xFDF0..=0xFFFD|0x10000..=0xEFFFF)
}
fn namechar(c: char) -> bool { namestart(c) || c == '-' || c == '.' || c.is_ascii_digit() || c as u32 == 0xB7 || matches!(c as u32, 0x300..=0x36F|0x203F..=0x2040) }
pub fn xmlchar(c: char) -> bool { matches!(c as u32, 0x9|0xA|0xD|0x20..=0xD7FF|0xE000..=0xFFFD|0x10000..=0x10FFFF) }

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T,String> {
        let from = self.i.saturating_sub(60); let to = (self.i+20).min(self.s.len());
        Err(format!("{} at byte {} (…{}…)", m, self.i, String::from_utf8_lossy(&self.s[from..to])))
    }
    fn looking(&self, p: &str) -> bool { self.s[self.i..].starts_with(p.as_bytes()) }
    fn eof(&self) -> bool { self.i >= self.s.len() }
    fn ch(&self) -> Option<char> { std::str::from_utf8(&self.s[self.i..(self.i+4).min(self.s.len())]).ok().and_then(|s| s.chars().next()).or_else(|| {
        for n in 1..=4 { if self.i+n <= self.s.len() { if let Ok(s) = std::str::from_utf8(&self.s[self.i..self.i+n]) { return s.chars().next(); } } } None }) }
    fn ws(&mut self) -> bool { let st = self.i; while !self.eof() && matches!(self.s[self.i], b' '|b'\t'|b'\n'|b'\r') { self.i += 1; } self.i > st }
    fn name(&mut self) -> Result<String,String> {
        let st = self.i;
        match self.ch() { Some(c) if namestart(c) => self.i += c.len_utf8(), _ => return self.err("name expected") }
        while let Some(c) = self.ch() { if namechar(c) { self.i += c.len_utf8() } else { break } }
        Ok(std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string())
    }
    fn reference(&mut self, out: &mut String) -> Result<(),String> {
        //at '&'
        let end = match self.s[self.i..].iter().position(|b| *b == b';') { Some(p) => self.i+p, None => return self.err("unterminated reference") };
        let r = std::str::from_utf8(&self.s[self.i+1..end]).map_err(|e| e.to_string())?.to_string();
        let c = match r.as_str() {
            "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'',
            r if r.starts_with("#x") => match u32::from_str_radix(&r[2..],16).ok().and_then(char::from_u32) { Some(c) => c, None => return self.err("bad character reference") },
            r if r.starts_with('#') => match r[1..].parse::<u32>().ok().and_then(char::from_u32) { Some(c) => c, None => return self.err("bad character reference") },
            _ => return self.err("undefined entity")
        };
        if r.contains('+') { return self.err("bad character reference"); }
        if !xmlchar(c) { return self.err("reference to a character not allowed in XML"); }
        out.push(c); self.i = end+1; Ok(())
    }
    fn comment(&mut self) -> Result<String,String> {
        self.i += 4; let st = self.i;
        loop {
            if self.eof() { return self.err("unterminated comment"); }
            if self.looking("--") { if self.looking("-->") { break; } return self.err("-- in comment"); }
            self.i += 1;
        }
        let s = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
        if !s.chars().all(xmlchar) { return self.err("bad character in comment"); }
        self.i += 3; Ok(s.replace("\r\n","\n").replace('\r',"\n"))
    }
    fn pi(&mut self) -> Result<(),String> {
        self.i += 2; self.name()?;
        while !self.eof() { if self.looking("?>") { self.i += 2; return Ok(()); } if self.s[self.i] == b'>' { return self.err("> in a processing instruction (legal, but nobody writes it)"); } self.i += 1; }
        self.err("unterminated processing instruction")
    }
    fn attrs(&mut self) -> Result<Vec<(String,String)>,String> {
        let mut v: Vec<(String,String)> = vec![];
        loop {
            let w = self.ws();
            if self.eof() { return self.err("unterminated tag"); }
            if matches!(self.s[self.i], b'>'|b'/'|b'?') { return Ok(v); }
            if !w { return self.err("whitespace expected between attributes"); }
            let n = self.name()?; self.ws();
            if !self.looking("=") { return self.err("= expected"); } self.i += 1; self.ws();
            let q = match self.s.get(self.i) { Some(b'"') => b'"', Some(b'\'') => b'\'', _ => return self.err("quote expected") };
            self.i += 1; let mut val = String::new();
            loop {
                match self.s.get(self.i) {
                    None => return self.err("unterminated attribute value"),
                    Some(c) if *c == q => { self.i += 1; break; }
                    Some(b'<') => return self.err("< in attribute value"),
                    Some(b'&') => self.reference(&mut val)?,
                    Some(b'\r') if self.looking("\r\n") => { val.push(' '); self.i += 2; }
                    Some(b'\n'|b'\t'|b'\r') => { val.push(' '); self.i += 1; }
                    Some(_) => { let c = match self.ch() { Some(c) => c, None => return self.err("bad utf-8") }; if !xmlchar(c) { return self.err("bad character"); } val.push(c); self.i += c.len_utf8(); }
                }
            }
            if v.iter().any(|(m,_)| *m == n) { return self.err("duplicate attribute"); }
            v.push((n,val));
        }
    }
}

///Reads a complete XML document (or, with ``fragment``, a single element with nothing but white space around it)
pub fn read(bytes: &[u8], inherited: &[(String,String)]) -> Result<XEl,String> {
    std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}",e))?;
    let mut p = P { s: bytes, i: 0 };
    if p.looking("\u{feff}") { p.i += 3; }
    if p.looking("<?xml ") { p.pi()?; }
    let mut root: Option<XEl> = None;
    let mut stack: Vec<(XEl,usize)> = vec![];
    let mut nsstack: Vec<(String,String)> = inherited.to_vec();
    nsstack.push(("xml".into(),"http://www.w3.org/XML/1998/namespace".into()));
    let mut text = String::new(); let mut doctype = false;
    macro_rules! flush { () => { if !text.is_empty() { if let Some((top,_)) = stack.last_mut() { let t = std::mem::take(&mut text); top.kids.push(XNode::Text(t)); } } } }
    while !p.eof() {
        if p.looking("<!--") { flush!(); let c = p.comment()?; if let Some((top,_)) = stack.last_mut() { top.kids.push(XNode::Comment(c)); } }
        else if p.looking("<![CDATA[") {
            if stack.is_empty() { return p.err("CDATA outside the root"); }
            p.i += 9; let st = p.i;
            while !p.looking("]]>") { if p.eof() { return p.err("unterminated CDATA"); } p.i += 1; }
            let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
            if !s.chars().all(xmlchar) { return p.err("bad character"); }
            let split = SPLIT.with(|s| s.get()); if split { flush!(); }
            text.push_str(&s.replace("\r\n","\n").replace('\r',"\n")); p.i += 3;
            if split { flush!(); }
        }
        else if p.looking("<?") { flush!(); p.pi()?; }
        else if p.looking("<!DOCTYPE ") && root.is_none() && stack.is_empty() && !doctype { doctype = true; p.i += 10; p.name()?; p.ws(); if !p.looking(">") { return p.err("unexpected markup declaration"); } p.i += 1; }
        else if p.looking("<!") { return p.err("unexpected markup declaration"); }
        else if p.looking("</") {
            flush!(); p.i += 2; let n = p.name()?; p.ws();
            if !p.looking(">") { return p.err("> expected"); } p.i += 1;
            let (el,nslen) = match stack.pop() { Some(x) => x, None => return p.err("end tag without start tag") };
            if el.qname != n { return p.err(&format!("mismatched end tag {} (expected {})",n,el.qname)); }
            nsstack.truncate(nslen);
            match stack.last_mut() { Some((top,_)) => top.kids.push(XNode::El(el)), None => root = Some(el) }
        }
        else if p.looking("<") {
            flush!();
            if stack.is_empty() && root.is_some() { return p.err("second root element"); }
            p.i += 1; let n = p.name()?; let attrs = p.attrs()?;
            let nslen = nsstack.len();
            for (k,v) in attrs.iter() { if k == "xmlns" { nsstack.push((String::new(),v.clone())); } else if let Some(pre) = k.strip_prefix("xmlns:") { nsstack.push((pre.to_string(),v.clone())); } }
            if n.starts_with(':') || n.ends_with(':') || n.matches(':').count() > 1 || attrs.iter().any(|(k,_)| k.starts_with(':') || k.ends_with(':') || k.matches(':').count() > 1) { return p.err("name expected"); } let (pre,local) = match n.split_once(':') { Some((a,b)) => (a.to_string(),b.to_string()), None => (String::new(),n.clone()) };
            let ns = nsstack.iter().rev().find(|(p,_)| *p == pre).map(|(_,u)| u.clone()).filter(|u| !u.is_empty());
            if ns.is_none() && !pre.is_empty() { return p.err("unbound prefix"); }
            for (k,_) in attrs.iter() { if let Some((pre,_)) = k.split_once(':') { if pre != "xmlns" && !nsstack.iter().any(|(p,_)| p == pre) { return p.err(&format!("unbound prefix {}",pre)); } } }
            let el = XEl { ns, local, qname: n, attrs: attrs.into_iter().filter(|(k,_)| k != "xmlns" && !k.starts_with("xmlns:")).collect(), kids: vec![] };
            if p.looking("/>") { p.i += 2; nsstack.truncate(nslen); match stack.last_mut() { Some((top,_)) => top.kids.push(XNode::El(el)), None => root = Some(el) } }
            else if p.looking(">") { p.i += 1; stack.push((el,nslen)); }
            else { return p.err("> expected"); }
        }
        else if p.s[p.i] == b'&' { if stack.is_empty() { return p.err("reference outside the root"); } p.reference(&mut text)?; }
        else {
            let c = match p.ch() { Some(c) => c, None => return p.err("bad utf-8") };
            if !xmlchar(c) { return p.err("character not allowed in XML"); }
            if stack.is_empty() { if !matches!(c,' '|'\t'|'\n'|'\r') { return p.err("text outside the root"); } }
            else if p.looking("]]>") { return p.err("]]> in text"); }
            else if c == '\r' { if !p.looking("\r\n") { text.push('\n'); } }
            else { text.push(c); }
            p.i += c.len_utf8();
        }
    }
    if !stack.is_empty() { return p.err("unclosed element"); }
    root.ok_or_else(|| "no root element".to_string())
}
