"""Generates MANIFEST.json from the table below: a property is claimed when checks/cNN.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential runtime monitoring: generated kernels, simulator vs natively compiled code, opt levels compared", "executions of generated UB-free kernels against native code of a different compiler path; trusts the generator's UB-freedom and clang's native back end"),
 "C02": ("runtime result monitor against independent integer reference models, corner-value workloads", "every executed call compared exactly with a Python big-integer model; explores sampled values and corner grids"),
 "C03": ("runtime result monitor against high-precision references with OpenCL ULP bounds", "every executed lane judged against an mpmath/exact reference; sampled inputs plus special values"),
 "C04": ("monitor plugin trace (work-item/work-group events) checked for exactly-once plus recorded ids, under schedule jitter", "each launch's full event log checked against the NDRange definition; sampled geometries and schedules"),
 "C05": ("online barrier-episode monitor and happens-before value oracle over generated barrier kernels", "recorded barrier/memory events and diagnostics judged against the generated structure"),
 "C06": ("offline linearizability checker over recorded atomic histories under jittered schedules", "histories of returned old values decided per address; sampled schedules"),
 "C07": ("diagnostic monitor with an exact expected-report oracle, guard buffers", "multiset of diagnostics compared exactly with the layout-derived expectation in sampled kernels"),
 "C08": ("independent happens-before race oracle over generated access patterns vs reported races", "reports compared with the oracle for sampled kernels"),
 "C09": ("taint oracle over generated data flows vs reported uninitialised uses", "reports compared with generator-known definedness"),
 "C10": ("cross-configuration runtime comparison of results and diagnostics under schedule jitter", "same program in many configurations, outputs compared byte for byte"),
 "C11": ("independent instruction-event observer vs printed counts", "printed report compared exactly with the monitor's own counts"),
 "C12": ("runtime byte-array model monitor over random command histories", "every byte compared after histories of commands"),
 "C13": ("runtime pixel-array model monitor over random image command histories", "every byte compared after histories of commands"),
 "C14": ("runtime result monitor against a reference sampler", "every pixel read/written compared with the reference within OpenCL tolerance"),
 "C15": ("offline checker over recorded command/event histories (exactly-once, ordering, failure propagation)", "effect order, statuses, callbacks judged against a dependency model"),
 "C16": ("object-lifetime monitor: reference counts, destructor callbacks, device allocation events under AddressSanitizer", "histories of retain/release/use judged against a reference model"),
 "C17": ("API monitor: expected-error oracle plus no-effect checks under AddressSanitizer", "return codes and side effects judged per generated call"),
 "C18": ("API monitor: query results, sizes and guard bytes against the creation history", "every query judged against recorded creation state"),
 "C19": ("build-route differential monitor (source, compile+link, binary) with metadata and result comparison", "kernels, metadata and results compared between routes"),
 "C20": ("AddressSanitizer and UndefinedBehaviorSanitizer over hostile kernels and API histories", "sanitizer reports on the executions performed"),
 "C21": ("ThreadSanitizer over multi-threaded workloads with schedule jitter", "happens-before race reports on the executions performed"),
 "C22": ("runtime output monitor: generated simulation files vs independent interpreter of the format", "dump text and exit status compared exactly"),
 "C23": ("process-level monitor: logs, environment, exit status vs documented option effects", "observations per launched process compared with documentation"),
 "C24": ("debugger transcript monitor vs independently computed program state", "scripted sessions compared with ground truth"),
 "C25": ("captured-output monitor vs independent printf formatter", "printed text compared exactly"),
}
NA = {}
checks, na = [], []
for p, (tech, note) in T.items():
    c = p.lower()
    if os.path.exists("%s/checks/%s.py" % (V, c)):
        checks.append(dict(property=p, quick_cmd="./check " + c, thorough_cmd="./check %s --thorough" % c, evidence_file="evidence/%s.json" % p,
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="python3 lib/buildlib.py rel rt kernel", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the monitor is an Oclgrind plugin (monitor/vmon.cpp) loaded through OCLGRIND_PLUGINS.")
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", len(na), "not")
