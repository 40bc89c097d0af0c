import json
R=json.load(open('/verif/rules.json'))
T={
"C01":"online model monitor on random and adversarial call histories (debug-checked and release builds)",
"C02":"online model monitor on iterations, interleaved iterators included",
"C03":"model monitor across close and reopen",
"C04":"reader monitor on the files after each save, SIGKILLed child processes",
"C05":"system-call interposition with a durability trace checker, synced-only image replay",
"C06":"differential monitor: bulk calls against single calls and model",
"C07":"model monitors over interleaved maps and databases, directory snapshots",
"C08":"independent reader's structural assertions on the saved tree during histories",
"C09":"independent reader's space accounting during histories",
"C10":"file-length monitor against a bound from the observed peak during churn",
"C11":"model monitor with hash-file fault injection between sessions, slot assertions",
"C12":"differential monitor of equal histories under different buffer parameters",
"C13":"online model monitor and differential run against file maps",
"C14":"refusal monitor over wrong kinds, swapped files and damaged signatures",
"C15":"AddressSanitizer, Miri, debug assertions, overflow checks and std precondition checks over all scenarios",
"C16":"byte digests of the files before and after reading",
"C17":"system-call fault injection (errors, short transfers, EINTR) with model and reader monitors",
"C18":"differential monitor: library statistics against the independent reader",
"C19":"golden databases and independent reader as format oracle",
"C20":"reference oracle on generated keys and key pairs, direct and through maps",
"C21":"model monitor on boundary lengths and far file positions",
"C22":"descriptor-count monitor over rounds of opening and dropping",
"C24":"work monitor: CPU time, system calls and live heap of the same calls on a small and a large map",
"C25":"byte monitor: the independent reader looks at every byte outside live records' contents",
"C26":"threads with databases of their own: ThreadSanitizer, model monitor in every thread, independent reader afterwards",
"C23":"online model monitor in twenty-five feature builds with debug and overflow checks",
}
checks=[]
for p in sorted(T):
    lv=R[p].get("level","exploration")
    note={"fault_enumeration":"faults are injected or crash images taken at many observed points of generated histories; not all points of all histories",
          "exploration":"generated histories under monitors; what is not drawn is not covered, the evidence file counts what was observed"}[lv]
    checks.append({"property":p,"quick_cmd":f"python3 check.py {p} quick","thorough_cmd":f"python3 check.py {p} thorough","evidence_file":f"evidence/{p}.json","technique":T[p],"level":lv,"level_note":note})
json.dump({"version":1,"setup_cmd":"python3 check.py --setup","checks":checks,"not_applicable":[],"notes":"All checks use the public API and the files only; no hooks in /repo. DESIGN.md says how each property is decided."},open('/verif/MANIFEST.json','w'),indent=1)
