PBT="property-based testing (recorded choice streams, shrinking): "
N="Search over generated cases, no proof of absence; trusts the reference model and the harness's own XML reader/writer, both independent of the library. "
NA={}
T["C01"]=(PBT+"generated documents, loaded tree compared with a reference model",N)
T["C02"]=(PBT+"serialised documents read by an independent strict XML reader and compared with the document",N)
T["C03"]=(PBT+"save/load cycles compared with the original document",N)
T["C06"]=(PBT+"stateful histories of declarations and annotations, full state compared with a reference model after every step",N)
T["C07"]=(PBT+"stateful histories of processors, activations and annotations, full state compared with a reference model after every step",N)
T["C11"]=(PBT+"histories and documents with nested spans, links compared in both directions with a reference model",N)
T["C12"]=(PBT+"histories of span annotations, full tree compared with a reference model",N)
T["C14"]=(PBT+"stateful histories of add/attach/detach with valid and invalid targets, invariants and reference model after every step",N)
T["C15"]=(PBT+"every (parent, child) pair exhaustively, and histories of accepted and refused additions, against the specification's acceptance relation",N)
T["C16"]=(PBT+"histories of additions with fresh, repeated and unusual identifiers, lookups compared with a reference model",N)
T["C20"]=(PBT+"histories and documents with features, compared with a reference model",N)
T["C22"]=(PBT+"histories of store additions and lookups, compared with a reference model",N)
T["C08"]=(PBT+"generated documents, selectors, recursion policies and flags, every selection compared with a reference depth-first traversal; documents too large for recursion",N)
T["C09"]=(PBT+"generated documents and queries, every element judged by the reference model's decoded criteria",N)
T["C10"]=(PBT+"generated documents, elements and selectors, compared with the reference model's parent chains",N)
T["C13"]=(PBT+"generated documents and text requests, compared with a reference text computed from the model",N)
T["C05"]=(PBT+"generated documents in random equivalent XML spellings, compared with the plain spelling and a reference model",N)
T["C04"]=(PBT+"random bytes, every truncation, byte and structural mutations of generated documents, judged by an independent strict XML reader and a reference model; deep and wide documents on bounded stacks",N)
T["C17"]=(PBT+"every table entry exhaustively against the specification snapshot, generated near-miss names alone and in documents","Exhaustive over the tables, search over generated names; trusts the snapshot of the specification tables (pbt/spec/spec.json).")
T["C18"]=(PBT+"generated headers and edit histories of metadata with saves and loads, compared with key/value maps and read back by an independent XML reader",N)
T["C19"]=(PBT+"generated attributes with valid and invalid values judged by an independent value grammar; attribute edit histories on elements and documents compared with a list model",N)
T["C21"]=(PBT+"lists of generated, damaged and missing files given to the built program, output compared with what the library loads","Differential against the library in the same process; exit status for unloadable files is left open.")
