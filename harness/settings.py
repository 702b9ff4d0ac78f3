"""Per property: cases per shard (quick, thorough), kinds of workers, and what
MANIFEST.json says about the check."""

BASE = ("Random search against an explicit oracle: no violation was found in the cases counted in the evidence; absence is not proved. "
        "Trusted: the reference model in harness/driver, the Go toolchain, pgregory.net/rapid. ")

PROPS = {
    "C01": {"checks": (1600, 60000),
            "technique": "stateful property-based testing (rapid) of random histories against a reference model of levels",
            "note": "Fresh process per case; levels, predicates and emission compared after every call."},
    "C02": {"checks": (1600, 60000),
            "technique": "stateful property-based testing (rapid) against a reference model of output routing, virtual clock",
            "note": "Every delivery to capturing outputs and the console is compared, in order."},
    "C04": {"checks": (1000, 40000), "technique": "stateful property-based testing (rapid) of reconfiguration histories against a reference model, real outputs included",
            "note": "Fresh process per case; console, files, memory and capturing outputs are compared byte by byte after Close."},
    "C03": {"checks": (700, 25000),
            "technique": "metamorphic property-based testing: the same program after different series of lookups",
            "note": "Differential between 2 to 4 fresh processes per case."},
}

def prop(pid, quick, thorough, technique, note, **k):
    PROPS[pid] = dict(checks=(quick, thorough), technique=technique, note=note, **k)


prop("C05", 800, 30000, "property-based testing: structured and garbled documents against an independent validity oracle; metamorphic comparison of equivalent forms",
     "Documents are read independently with the same YAML and JSON libraries into a mirror of the configuration; validity is the property's own rules.")
prop("C06", 1600, 60000, "grammar-based property-based testing (rapid) of layouts and events against an independent renderer",
     "Layouts have one reading by construction; specs contain no brace or backslash.")
prop("C07", 1300, 50000, "property-based testing (rapid) of operands, fields and writers against a reference renderer",
     "Operands include ones the application changes after the call; printed addresses are avoided.")
prop("C08", 1300, 50000, "property-based testing (rapid) of call sites against the stack recorded at the call site",
     "The expected frame is taken from runtime.Callers in the application code itself.")
prop("C09", 1200, 50000, "property-based testing (rapid) of thresholds against a reference filter over whole outputs",
     "The system log is a stand-in: log/syslog is built with another socket path.")
prop("C22", 1200, 50000, "property-based testing (rapid) against a stand-in system log on a Unix datagram socket",
     "log/syslog is the toolchain's own, with another socket path (overlay).")
prop("C10", 900, 40000, "stress with generated schedules (rapid) against a linear-order oracle over the whole output",
     "Schedules are those the Go scheduler produces for random thread counts, queue sizes, message sizes and GOMAXPROCS; not exhaustive.", kinds=["plain", "fault"])
prop("C11", 700, 40000, "property-based testing (rapid) under a virtual clock (testing/synctest) with an invariant after every step",
     "\"About five seconds\" is taken as at most six.")
prop("C12", 380, 40000, "stress with generated schedules (rapid) against an oracle over the order numbers of calls",
     "Order numbers are taken just before and after each call; calls that overlap are not ordered.", kinds=["plain", "fault", "race"])
prop("C13", 700, 30000, "stateful property-based testing (rapid) of message and restart histories against a reference model of size rolling",
     "The directory is listed with checksums after every message.")
prop("C14", 600, 30000, "stateful property-based testing (rapid) of retention among generated foreign files, by the change of the directory per message",
     "Numbers are canonical decimals; labels of time rolling do not go back while retention is at work.")
prop("C15", 700, 30000, "stateful property-based testing (rapid) under a virtual clock against a reference model of time rolling",
     "Patterns include a date; a period that recurs is only required to leave the existing backup alone.")
prop("C16", 700, 30000, "stateful property-based testing (rapid) of archiving against a conservation invariant, archives read by the standard library",
     "Archiving is made impossible by a file in place of the temporary directory, or fails at file operations (package os of the worker consults a hook before each).", kinds=["plain", "fault"])
prop("C17", 130, 3000, "stateful property-based testing (rapid) with injected kills: generated lives of several processes, all file-system operations of a process as kill points, against a conservation invariant",
     "Kills come between file-system operations: package os of the worker consults a hook before each.", kinds=["fault"])
prop("C18", 200, 3000, "stateful property-based testing (rapid) with injected file-system faults against a conservation invariant and a reference of rolling",
     "Faults are injected in package os of the worker (overlay of the toolchain's sources); errors that lie about a file's absence are left out for stat.", kinds=["fault"])
prop("C19", 110, 3000, "stress with generated schedules (rapid) under the race detector against a linear-order oracle over every output",
     "Schedules are those the Go scheduler and the virtual clock produce; not exhaustive.", kinds=["race"])
prop("C20", 450, 3000, "stress with generated concurrent call mixes (rapid) under the race detector against a reference model of the settled state",
     "Per logger one goroutine sets, so that the settled state is known.", kinds=["race"])

prop("C24", 4000, 400000, "property-based testing (rapid) of texts and values against tables of the documented names",
     "Runs in the driver's process; the letter 'dotless i', whose upper case is I, is left out.")

prop("C21", 1200, 60000, "property-based testing and structure-aware fuzzing (rapid): round trips, differential against the standard library, damaged archives and failing streams",
     "Runs in the driver's process. Damage that the standard library itself does not notice is not judged; tar has no checksums, damage to it is not judged.")

prop("C23", 900, 40000, "property-based testing (rapid) of settings against a reference model of names, sizes and permission bits",
     "Large sizes are reached with sparse files; the worker runs as an unprivileged user, so directories keep the owner's bits.")

prop("C25", 1300, 50000, "stateful property-based testing (rapid) of registrations, configurations and requests against a reference model of what is built",
     "Own creators, formatters and outputs record every call; built-in ones are told apart by identity.")

prop("C26", 700, 40000, "property-based testing (rapid) of histories with real signals against what was logged before the signal",
     "The worker signals itself; flushing is awaited for at most four seconds, three times. Finding survives-signal is listed in known_findings.txt.")

prop("C27", 1300, 100000, "stateful property-based testing (rapid) of histories against an upper bound of the goroutines, sockets and files in use",
     "Goroutines, sockets and open files are counted in the process itself, polled for five seconds before something counts as left behind; the garbage collector, which would close forgotten files some time, is off.", kinds=["plain", "fault"])

prop("C28", 1500, 80000, "property-based testing and fuzzing (rapid) of the texts of settings against conservation of messages",
     "What the settings mean is not judged here (see C13 to C16, C23), only that nothing fails and nothing gets lost.")

prop("C29", 1300, 80000, "property-based testing (rapid) of call histories with operands that record their use, against the calls that emit by a reference model",
     "Order numbers are taken just before and after each call and at each use.")
prop("C30", 900, 60000, "stress with generated schedules and histories (rapid) of writers that share a file, against the exact bytes or an interleaving oracle",
     "Other processes are stood in for by the application's own descriptors; no roll falls due while a file is shared.")
prop("C32", 1000, 40000, "stateful property-based testing (rapid): model of files by identity, the directory changed from outside between operations",
     "After every operation all files are compared with what the allowed behaviours yield from the directory as it was found.")
prop("C31", 1300, 80000, "property-based testing (rapid) of call histories with operands that call the library, flattened by order numbers, against a reference model",
     "An operand acts only the first time it is used.")
NOT_APPLICABLE = {}
