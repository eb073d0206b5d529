#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T="explicit-state enumeration of all inputs within bounds, executed on the real decoder"
REF="Executions of the real, unmodified decoder on every input of the bounded space; the oracle is an independent encoder and floating-point reference renderer in the harness."
notes={
"C01":(T,"Every byte deviation, truncation, header combination and option combination in the bounds is executed with overflow checks on; assumes the bounded space is representative of larger images."),
"C02":(T,"Every frame shape in the bounds is decoded and buffer, info and returned sizes compared with the formula of the property."),
"C03":("exhaustive enumeration of reader behaviours (short reads, interruptions) up to a deviation bound","Every placement of up to two (thorough: three) deviations plus all uniform chunk sizes, on the real decoder; assumes the reader obeys the Read contract."),
"C04":("exhaustive fault injection at every read position","Every byte position x fault kind x error kind is injected into the real decoder."),
"C05":(T,"Reader position is compared with the end-of-image offset for every stream in the space."),
"C06":("explicit enumeration of all API call histories up to a depth","All call sequences within the depth are run against the real decoder and compared with a fresh decoder; call histories in which a call failed are excluded."),
"C07":(T,REF),
"C08":(T,"Every scan script in the bounds is coded by an independent progressive encoder and compared bit for bit with the sequential coding of the same coefficients."),
"C09":(T,REF),
"C10":(T,"Every restart interval of the covered images, and every replacement of every restart marker."),
"C11":(T,"All sample-pair differences modulo 2^16 and all small images x predictors x transforms are coded by an independent encoder; results must be exact."),
"C12":(T,"Compared with a double-precision inverse DCT; blocks are enumerated by position, value and pairs, tolerance 3 levels as stated."),
"C13":(T,"All 2^24 YCbCr triples at full vectors, all line lengths and positions in the bounds."),
"C14":(T,"The product of all factors in the statement is enumerated completely."),
"C15":(T,REF),
"C16":(T,"All request/size relations on a dense grid of sizes and all request sequences within the depth."),
"C17":(T,"All chunk sequences up to the depth over the (seq, count, length) alphabet; boundary counts 1..256."),
"C18":(T,"All payload lengths 0..65533 and every one-byte deviation of the signatures."),
"C19":(T,"Every insertion at every segment boundary of the base streams, and all pairs of short insertions."),
"C21":("differential explicit enumeration over build configurations","Every enumerated stream and option set is run on four host builds (threads/pool x SIMD/portable), on wasm32 builds with and without SIMD (in node) and on the NEON code with its instructions replaced by their definitions; pixel tolerances apply to valid in-range streams only."),
"C22":(T,"All length multisets and assignments in the bounds, every bit alignment, over-subscribed and mis-sized tables; the oracle is an independent canonical-code encoder."),"C23":(T,"Limits around the exact size for every process, component count, precision and scale; the oracle is the size formula."),"C24":(T,"All values of every header field and all pairs of fields over boundary values; the oracle is an independent validity predicate over the header fields."),
"C25":("explicit-state search of a grammar automaton, every path replayed on the real decoder","All segment sequences up to the depth over the segment alphabet; the model is the grammar automaton, bound to the code by replaying every path."),
"C26":("enumeration of all definition histories up to a depth, executed on the real decoder","A table-store model predicts the tables in effect for each scan; every history is coded and replayed on the real decoder."),
"C27":("enumeration of all decode sequences and concurrent pairs","Sequences run in pristine forked processes; true simultaneity on OS threads is not scheduled here (C20 explores interleavings of two decodes)."),
"C28":(T,"All subsets of defined tables x all standard symbols, compared with the explicitly defined tables."),
"C29":("explicit enumeration of inputs, histories and repetitions, executed on the real decoder under a counting allocator","Bounds are twice what the model of the image says it takes; memory is what the global allocator is asked for."),
"C30":("exhaustive enumeration of bounded inputs executed on the real code under memory-checking monitors (AddressSanitizer, Miri)","Every enumerated stream is decoded by the real code under the monitors; an access outside a slice but inside its allocation is seen only in Miri, whose bounds are smaller."),
"C20":("stateless model checking of the real code under a controlled scheduler: all interleavings, preemption- or delay-bounded where there are too many","The real decoder sources compiled against scheduled std threads, channels, locks and atomics, and the real rayon iterators on a model of rayon-core; sequentially consistent memory."),
}
extra=json.load(open(os.path.join(root,"tools","notes.json"))) if os.path.exists(os.path.join(root,"tools","notes.json")) else {}
have=[l.split("=>")[0].strip().strip('"') for l in open(os.path.join(root,"harness/src/checks/mod.rs")) if "::spec(tier)," in l]
if os.path.exists(os.path.join(root,"sched","Cargo.toml")): have.append("C20")
checks=[];na=[]
for l in open(os.path.join(root,"properties.jsonl")):
    i=json.loads(l)["id"]
    if i in have:
        t,n=notes[i]
        n=extra.get(i,n)
        checks.append({"property":i,"quick_cmd":f"bin/check {i}","thorough_cmd":f"VERIF_TIER=thorough bin/check {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":"fault_enumeration" if i in("C04",) else "model_checking","level_note":n})
    else:
        na.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"bin/check --build","checks":checks,"not_applicable":na,"notes":"See DESIGN.md. Every check builds /repo's working tree (four feature configurations, wasm32 with and without SIMD, NEON code) into /verif/target."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
