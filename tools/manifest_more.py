T["C18"] = (M + ", reference-model oracle (BTreeMap)",
            "Generated histories over all small leaf and internal degrees and the default ones are compared step by step with a BTreeMap that keeps the stored key. Search, not proof.")
T["C19"] = (M + " over generated serializable types and declared sizes, reference-model oracle",
            "Nine pairs of key and value types with declared sizes chosen as a user would; operations, reopening and iteration are compared with a BTreeMap.")
T["C20"] = (M + " with generated reopen points, reference-model oracle",
            "Histories that drop and reopen at generated points, also after moving the file or from a copy taken while the map was open (a killed process), compared with a BTreeMap. Kills inside an operation and power failure are outside the property.")
T["C21"] = (M + " with generated oversized entries, reference-model oracle",
            "Histories in which keys or values that do not fit are offered at generated points, before and after reopening; contents must stay as the model says.")
T["C22"] = (M + ", file-size bound from page accounting",
            "Histories of growth, shrinking, clearing and reopening; file growth is measured in pages and held against the number of pages the largest contents can need.")
S = "stateful property-based testing with controlled thread schedules (coverage-guided mutation)"
for i in ("C23", "C24"):
    T[i] = (S + ", reference-model oracle (BTreeMap)",
            "Compaction threads are stopped and released at generated basic blocks, also in the middle of operations of the calling thread; all observations are compared with a BTreeMap. Interleavings inside one basic block and weak memory orders are not controlled.")
T["C25"] = (S + " and generated reopen points, reference-model oracle (BTreeMap)",
            "Flush, drop and open at generated points of generated histories, both strategies; everything observable is compared with a BTreeMap afterwards.")
T["C26"] = (S + " and generated drop points, prefix oracle over the history",
            "The map is dropped without flush at generated points and compaction states; the reopened contents must equal the state after some prefix of the log since the last flush. Kills inside an operation are C30.")
T["C27"] = (S + " and several partially consumed iterators, snapshot oracle",
            "Up to four iterators are stepped between generated operations and compared with snapshots of the model.")
T["C28"] = (S + " and injected failures, reference-model oracle (BTreeMap)",
            "The n-th decode, encode, comparison, hash or clone of a compaction thread fails with an error or a panic, or its n-th file-system call fails; all observations are compared with a BTreeMap afterwards. Failures of the calling thread's own operations are outside the property.")
T["C29"] = (S + ", directory oracle (a table is live if the map cannot be opened without it) and table-count bounds",
            "After each generated flush every table directory is tested for being needed, and table counts are held against the bound of the strategy parameters.")
T["C16"] = ("property-based testing with generated thread schedules (serialised threads, switches at basic blocks, coverage-guided mutation), linearizability oracle",
            "Two to four threads run one at a time and switch at generated basic blocks of the stack and of the reclamation library; the history of calls must have a linearization as a LIFO stack, and len must stay within what the calls under way allow. Weak memory orders and switches inside a basic block are not explored.")
T["C17"] = ("property-based testing with generated thread schedules (serialised threads, switches at basic blocks), ownership registry, AddressSanitizer",
            "Elements register construction and drop while reclamation is provoked at generated points; every element must be dropped once, by its popper or with the stack, and node memory must be returned. Weak memory orders are not explored.")
T["C30"] = ("stateful property-based testing with generated crash points (interposed file-system calls) and controlled thread schedules, prefix oracle over the history",
            "The directory is copied before generated file-system calls of either thread, reopened later and compared with every prefix of the log since the last flush. Each call counts as atomic; power failure (reordered or torn writes) is outside the property.")
T["C31"] = ("stateful property-based testing with generated faults in user code (panicking comparisons and destructors, inconsistent orderings), ownership registry, AddressSanitizer",
            "Every element handed out is checked against a registry; any access to freed memory is reported by AddressSanitizer. Leaks and wrong results are allowed once user code has misbehaved.")
T["C32"] = ("stateful property-based testing with generated file-system faults in the caller's thread (interposed calls) and controlled compaction schedules, reference model",
            "Calls fail without effect; torn writes are not injected. A write that reports an error may or may not have taken effect, which the model learns by looking at its key.")
T["C33"] = ("stateful property-based testing with generated file-system faults (interposed calls), reference model",
            "Calls fail without effect. What a writing operation that reported the error leaves behind is not specified; the file is put back as it was before and the history goes on.")
