#!/usr/bin/env python3
# writes MANIFEST.json from the list of properties that main.rs dispatches
import json,re
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
src=open('/verif/harness/src/main.rs').read()
have=set(re.findall(r'"(C\d\d)" =>',src))
DATA=("exhaustive differential monitor of the running code over all 1,112,064 scalar values against frozen Unicode 10.0.0 data",
 "every scalar value through every public access path is observed in a debug build (overflow and debug assertions on); trusts the frozen reference data of /verif/ref, derived from three sources independent of the repository")
MODEL=lambda what:(f"differential runtime monitor: {what}", "bounded-exhaustive plus seeded random exploration of the real code (debug build, overflow checks on) against an independently written executable specification; says nothing beyond the inputs executed, which the evidence counts")
T={}
for i in range(1,10): T[f"C{i:02}"]=DATA
T["C28"]=T["C34"]=DATA
T["C10"]=MODEL("name, parse and display contract of every property value, plus user-defined properties, against PropertyValueAliases")
T["C11"]=MODEL("table lookups against a linear scan of the rows")
T["C12"]=MODEL("iterators stepped from both ends in many interleavings against the set of scalar values")
T["C13"]=MODEL("range constructors and queries against the set of scalar values")
T["C14"]=MODEL("recorded visits of real rayon pools (1-16 threads, many split shapes) checked for exactly-once and order; data races under Miri")
T["C15"]=MODEL("Hangul arithmetic, exhaustive")
T["C16"]=MODEL("the four normalization forms against the UAX #15 definitions")
T["C17"]=MODEL("metamorphic and consumption-order monitors on normalization iterators")
T["C18"]=MODEL("grapheme clusters against the UAX #29 rules")
T["C19"]=MODEL("interleaved double-ended iteration traces against the forward clusters")
T["C20"]=MODEL("cursor protocol traces over random chunkings against the undivided text")
T["C21"]=MODEL("word boundaries against the UAX #29 rules")
T["C22"]=MODEL("interleaved double-ended iteration traces against the forward segments")
T["C23"]=MODEL("paragraphs and classes against UAX #9 P1-P3")
T["C24"]=MODEL("embedding levels against an executable UAX #9 X1-I2")
T["C25"]=MODEL("visual runs and reordered lines against L1/L2 over the reported levels")
T["C26"]=MODEL("level arithmetic, exhaustive over all numbers and amounts, and random operation sequences")
T["C27"]=MODEL("Punycode against an independent RFC 3492 transcription")
T["C29"]=MODEL("domain conversion against an executable UTS #46")
T["C30"]=("Miri (undefined-behaviour interpreter) and AddressSanitizer runs of the real code","the interpreter and the sanitizer observe every access of the executed workloads; Miri workloads are small, sanitizer workloads large; unexecuted inputs are not covered")
T["C31"]=MODEL("panic, overflow, step-count and CPU-time monitors under hostile inputs")
T["C32"]=("multi-threaded differential monitor and race detection (Miri, ThreadSanitizer where available)","many threads repeat every query and algorithm and compare with the single-threaded answer; race detectors observe the executed schedules only")
T["C33"]=("black-box monitor of the built command-line programs against an independent codec","real processes, real pipes; trusts the reference codecs in the monitor")
T["C35"]=MODEL("cross-component consistency, every scalar value and random strings")
T["C37"]=MODEL("equality, hashing, ordering and copy laws of every public value type, and fault injection into the writers that values are displayed to")
T["C36"]=("black-box monitor of the table generator on synthetic and full source data against a model","the real program runs as an unprivileged user on written source files; its tables are read back by a parser of Rust literals and compared with the model the sources were written from; trusts the writer of the sources in the monitor")
T["C38"]=("differential monitor of several builds of the library (debug, release, size-optimised without optional features, newer toolchain, and two other machines under Miri) answering the same questions","compares digests of complete answers operation by operation; unexecuted inputs are not covered and the interpreted builds see few")
checks=[];na=[]
for i in ids:
    if i in have:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",technique=t,level="exploration",level_note=n,evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="No hooks in /repo: every property is observable through the public API, so there is no guarded code.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),len(na))
