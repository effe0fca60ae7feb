import json
F=[]
def f(p,probe,what,inp): F.append(dict(property=p,probe=probe,what=what,input=inp))
B='<t class="current">a <t-str>b</t-str> <t-str>c</t-str></t>'
f("C13","blank-text-between-markup","white space that stands alone between two markup elements inside <t> is dropped when loading, so the words on both sides run together ('a bc')",B)
f("C05","blank-cdata","white space that stands alone in a CDATA section (<t>a<![CDATA[ ]]>b</t>) is dropped, while the same character written literally is kept",'<t class="current">a<![CDATA[ ]]>b</t>')
f("C03","feature-without-set-of-its-own","a feature under an annotation that states no set, class or processor follows the default set; when a second set of the type is declared by a later annotation, saving declares both up front and the feature's set changes on reload",'<metric-annotation set="a"/> ... <metric><feat subset="x" class="y"/></metric><metric set="b"/>')
f("C01","class-without-annotation-type","class, set and processor are dropped on elements whose type has no annotation type (caption, item, row, cell, label, ...)",'<figure><caption class="x"/></figure>')
f("C20","feature-under-element-without-annotation-type","a feature under an element whose type has no annotation type (item, row, cell, ...) cannot be loaded: the document is refused",'<list><item class="x"><feat subset="a" class="b"/></item></list>')
f("C08","inclusive-selection-of-detached","an inclusive selection that starts from a detached element yields the body in place of the element (SelectItem borrows the link in the parent, a detached element has none)",'detach a <w>, then select_by_key(w, any, Recursion::Always, inclusive=true)')
f("C10","ancestors-by-group-and-set","ancestors by group and a specific set are never found (a set is only looked up together with an element type)",'get_ancestor_by_group(Structure, Cmp::Is("x")) under <s set="x">')
f("C13","text-of-another-set","text() of a given set also gives the text of that class in another set",'text(set "y", class "current") on <w><t set="x" class="current">one</t></w>')
X=[
("acd9a23","C01","a declaration without annotators (empty element) ended the list of declarations; what followed was lost"),
("634d552","C07","begindatetime/enddatetime of processors were not read, the document was refused"),
("27d9dd7","C05","<annotator ...></annotator> was refused where <annotator .../> is accepted"),
("b9b7913","C18","submetadata and meta fields were lost or mixed up between blocks when loading and not written when saving"),
("e12a18e","C05","an empty <metadata/> was not accepted"),
("e520c4f","C07","annotators were not linked to processors declared after the annotations"),
("dfc5682","C07","metadata fields of a processor ended up with the document"),
("586af56","C04","malformed attributes and names panicked or were dropped silently"),
("a33ab73","C05","an empty body written as <text/> was refused"),
("b56d1ba","C04","truncated documents and content after the body were accepted"),
("ba10312","C04","iterating over large or deep documents exhausted the stack"),
("a955a77","C08","a union of selectors ignored all but two members"),
("dda2867","C09","the criteria annotator, annotatortype and confidence were ignored"),
("8a5b852","C20","features were encoded in another declaration than their annotation's"),
("8cac797","C20","features were not found depending on how many sets the document declares"),
("86369f0","C19","displaying an attribute type recursed without end"),
("82de921","C01","attributes of layers that inherit their set were dropped"),
("68a8573","C10","elements without a common ancestor were given one"),
("2a5dfb2","C14","attaching an element to itself or to its own descendant was accepted and made a cycle"),
("a65b52c","C16","a second element with an ID in use silently took the ID over"),
("dc342f7","C07","adding or attaching a processor again duplicated it in the chain or made a cycle"),
("7acaf18","C15","an invalid nested element was refused only after the rest had been added; features in it did not know their annotation"),
("042a8a8","C11","a word reference to a word further on was refused"),
("af7622b","C12","the layer of the common ancestor was not reused when annotating from a spanned element"),
("bdabde8","C12","a refused span annotation left an empty layer behind"),
("6f4dc56","C06","default document properties changed the sets and annotators of loaded annotations"),
("04a02a2","C13","text of another class was returned, text through word references and corrections was not found, reference cycles did not end"),
("f6e80f0","C02","indentation added white space to text"),
("aa158f0","C02","comments were altered when serialised; the XML of a detached element panicked"),
("41fac64","C03","the set or processor of elements was not written when nothing else referred to their declaration"),
("1b9dc68","C09","queries for some or no set looked at the class; classes of features were looked up among ordinary classes"),
("a217a2b","C08","the element an inclusive selection starts from was yielded again through a span reference"),
("8038061","C04","unexpected empty elements were ignored where the same element with an end tag is refused"),
("1268987","C02","newlines and tabs in attributes and carriage returns in text were written raw and changed by any XML reader"),
("e8487c6","C05","line breaks in attribute values and \\r\\n in text were not normalised"),
("68c2038","C05","CDATA sections with markup characters were unescaped once more, or refused"),
("8385727","C04","text before the root or around the body and undecodable root attributes were accepted"),
("28b9c0c","C05","blank CDATA around the body was refused"),
("7d7295d","C05","xmlns on an element or processor was refused as unknown attribute"),
("ef5ca1c","C19","the attribute 'tag' could not be read or written"),
("97b528e","C20","a feature whose subset did not fit in the vocabulary was stored without its subset"),
("b2e73eb","C21","a file name that is not valid UTF-8 crashed the linter, the other files were not handled"),
("fca6373","C06","DocumentProperties.autodeclare = false (documented in the README) had no effect: annotations that are not declared were declared and accepted"),
("c0ab9f9","C07","an existing processor given as subprocessor to a new one was listed twice in the provenance chain (and a key that does not exist was accepted)"),
("f208a99","C21","a document with a comment that is not valid XML (<!-- a -- b -->) was loaded, but could not be saved or printed"),
("fe1bbe8","C11","word references that were moved into, out of or between span annotations (attach_element, detach_element) left the words linked to the old span or not linked at all"),
("c884a5c","C01","text and comments that consist of blanks other than white space in XML (no-break space, ideographic space) were dropped when loading (<t>&#160;</t>)"),
]
json.dump(dict(about="findings: defects of the pinned tree that are recorded, not repaired; each has a probe (pbt/src/known.rs) with the specific input. fixed: defects repaired in /repo; these suppress nothing.",
  findings=F,fixed=["fixed: property=%s %s %s"%(p,c,w) for c,p,w in X]),open('/verif/known_findings.json','w'),indent=1)
