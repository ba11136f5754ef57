"""Regenerates MANIFEST.json from the check modules present."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TECH = {
 "C01": "runtime monitor: independent authentication model vs recorded session calls and wire bytes over generated exchanges and follow-up programs",
 "C02": "runtime monitor: recomputed scramble oracle on the nonce observed on the wire over enumerated responses and routes",
 "C03": "runtime monitor: strict online protocol automaton over generated command programs on a deterministic loop",
 "C04": "runtime monitor: trace equality over enumerated stream segmentations, boundary payload sizes, TLS",
 "C05": "runtime monitor: independent text/binary decoders compared cell by cell with values handed over by the application",
 "C06": "runtime monitor: independent SQL lexer aligning the SQL received by the application with template and parameters",
 "C07": "runtime monitor: work/CPU watchdogs, response automaton, witness connection and registry monitor under packet fault injection",
 "C08": "runtime monitor: interleaved-vs-solo transcript equality on a deterministic loop with gated completions",
 "C09": "runtime monitor: kill injection at every event-loop iteration boundary, response automaton and close-count oracle",
 "C10": "runtime monitor: exhaustive fault injection (disconnect/write failure/callback exception) with lifecycle event-log oracle",
 "C11": "runtime monitor: fetch histories compared with a slicing model, exhaustive for small results",
 "C12": "runtime monitor: pull/accept counters on instrumented row sources under scripted socket back-pressure",
 "C13": "runtime monitor: application call log compared with expected call list from a statement grammar",
 "C14": "runtime monitor: reference variable-store model compared with observed reads after every statement",
 "C15": "runtime monitor: independent charset codecs compared with strings/bytes observed at both boundaries",
 "C16": "runtime monitor: catalog rows compared with sets computed from the declared mapping",
 "C17": "runtime monitor: attribute mapping received by the application compared with the one sent",
 "C18": "runtime monitor: id uniqueness/prefix/refusal invariants over long arrival/departure histories",
}
NOTE = {
 "C10": "Every injection point of the reference conversations is enumerated on the real asyncio transport/stream code over in-memory sockets; assumes the in-memory socket behaves like a kernel stream socket.",
}
DEF = ("Observes the real server code on a deterministic in-memory event loop; decides the executions "
       "generated (enumerated parts are listed in the evidence), trusts the independent codec/oracle in /verif/vlib "
       "and that in-memory sockets behave like kernel stream sockets.")
FAULT = {"C07", "C09", "C10"}
def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks, na = [], []
    for i in range(1, 19):
        pid = f"C{i:02d}"
        if os.path.exists(os.path.join(root, "checks", pid.lower() + ".py")):
            checks.append({"property": pid, "quick_cmd": f"./check {pid.lower()} --tier quick",
                           "thorough_cmd": f"./check {pid.lower()} --tier thorough",
                           "technique": TECH[pid], "level": "fault_enumeration" if pid in FAULT else "exploration",
                           "level_note": NOTE.get(pid, DEF)})
        else:
            na.append({"property": pid, "reason": "check not built yet (work in progress)"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: everything is observed at the public boundary (sockets, application callbacks, Control, event loop)."}
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
main()
