import json
T={"C01":"TLA+ model of typed access; all transitions replayed on the real containers",
"C02":"TLA+ ownership model (object identities); transitions and random behaviours replayed",
"C03":"TLA+ sequence model; transitions and long random behaviours replayed over all layouts",
"C04":"TLA+ model with identities; clone transitions and later mutations replayed",
"C05":"TLA+ model of eq, hash and format; transitions replayed",
"C06":"TLA+ model of view stacks; transitions replayed",
"C07":"TLA+ model with out-of-range arguments; transitions replayed in debug and release builds",
"C08":"TLA+ heap specification checked by TLC against recorded allocator calls",
"C09":"fault enumeration: logs with a panic at every user callback, checked by TLC against the TLA+ trace specification",
"C10":"TLA+ model of values and references; transitions replayed",
"C11":"TLA+ model of capabilities; upcast and dyn conversions replayed",
"C12":"TLA+ specification of the Send/Sync matrix; every entry compared with the compiler's answer",
"C13":"TLA+ borrow specification; generated client programs judged by rustc",
"C14":"TLA+ specification of trait hierarchies; generated derive inputs compiled and exercised",
"C15":"TLA+ specification of numeric conversion; all cases replayed",
"C16":"TLA+ model of metadata-derived containers; transitions replayed"}
N={
"default":"Exhaustive within the stated small bounds (slots, lengths, values, types) and random beyond them; every transition TLC generates is executed on the real code (debug and release builds, several concrete layouts) and result, contents, identities and live objects are compared. Trusts the harness's observation code and that layouts outside the bound set behave like the ones in it.",
"C08":"All allocator calls made on behalf of the crate in the explored behaviours are checked by TLC against the layout discipline. Trusts the instrumented global allocator; memory accesses themselves (other than element alignment) are not observed.",
"C09":"Every callback position of every explored (state, operation) is made to panic once; the log of the unwound operation and of a few operations after it must be accepted by the trace specification. Callbacks panic one at a time; aborts (panic while unwinding) are outside.",
"C12":"The matrix covers all public container kinds, the built-in and derived capability tables and element probes; the compiler decides each entry. Trusts rustc.",
"C13":"Client programs are enumerated from the borrow specification for every entry point and use pattern; rustc's borrow checker judges them. Trusts rustc and the entry point list.",
"C14":"Hierarchies up to the stated size are enumerated or sampled; generated code is compiled and executed.",
"C15":"All pairs of the supported types, with landmark values of both types."}
import sys,os
done=sys.argv[1].split(",")
ids=["C%02d"%k for k in range(1,17)]
m={"version":1,"setup_cmd":"python3 tools/setup.py","checks":[],"not_applicable":[],
"notes":"All checks: python3 tools/check.py <id> [--thorough]; each builds the harness crate in /verif/harness against /repo as it is. No hooks in /repo are needed."}
lev={"C09":"fault_enumeration"}
for i in ids:
    if i in done:
        m["checks"].append({"property":i,"quick_cmd":"python3 tools/check.py "+i,"thorough_cmd":"python3 tools/check.py %s --thorough"%i,
          "technique":T[i],"level":lev.get(i,"model_checking"),"level_note":N.get(i,N["default"])})
    else:
        m["not_applicable"].append({"property":i,"reason":"the check is still being built"})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
