"""What each property is checked with: the engines (modes of the worker, or functions of engines.py), how many cases they
run in each tier, and the rule by which a case counts as non-trivial."""

ASSUMPTIONS = [
    "linux/amd64, go1.23.12, compiled with -gcflags='all=-l -N' as mockey demands",
    "the runtime of the workers preempts by signals only and goroutines run on large stacks (known finding K4)",
    "the arguments of mocked functions do not point into the caller's stack (known finding K7)",
    "entries with PC-relative instructions among the displaced ones are left out where the original is called (known finding K1)",
]


def eng(id, quick, thorough, **kw):
    return dict(engine=id, quick=quick, thorough=thorough, **kw)


HIST = "history case (a generated program over generated targets: builds, calls of all forms, reconfigurations, scopes, releases) compared step by step with the reference model; "

PROPERTIES = {
    "C01": dict(engines=[eng("C01", 40000, 200000), eng("C01s", 10000, 80000, variant="std")],
                rule=HIST + "non-trivial: at least one call was answered by a hook or Return; C01s: functions of the standard library as targets, non-trivial: a mocked call, one passed through, or a refusal"),
    "C02": dict(engines=[eng("C02", 4000, 30000)], rule=HIST + "the whole text segment is compared with its start-up image after each step; non-trivial: a target was mocked, then called with no mock in force"),
    "C03": dict(engines=[eng("C03", 30000, 200000), eng("C03d", 8000, 60000)],
                rule=HIST + "non-trivial: a scope ended with mocks in force, or UnPatchAll inside of a scope; C03d: the same tree of bodies run by convey.Convey and by PatchConvey, non-trivial: nested and with mocks"),
    "C04": dict(engines=[eng("C04", 60000, 200000)], rule=HIST + "non-trivial: a mock with several conditions was called and at least two predicates ran"),
    "C05": dict(engines=[eng("C05", 30000, 200000)], rule=HIST + "non-trivial: the original ran through a mock (origin function, no match, filter) or through the origin function after the release"),
    "C06": dict(engines=[eng("C06h", 3000, 60000, concurrent=True, workers=3), eng("C06", 12000, 80000, concurrent=True)],
                rule=HIST + "non-trivial: mocked calls together with passed-through, concurrent, panicking ones or a re-patch"),
    "C07": dict(engines=[eng("C07", 45000, 200000), eng("C07g", 8000, 60000)],
                rule=HIST + "non-trivial: a filter excluded at least one call; C07g: trees of goroutines comparing GetGoroutineId with the runtime's id, non-trivial: at least two goroutines"),
    "C08": dict(engines=[eng("C08h", 3000, 60000, concurrent=True, workers=3), eng("C08", 12000, 80000, concurrent=True)], rule=HIST + "non-trivial: at least three values of a sequence were handed out"),
    "C09": dict(engines=[eng("C09", 45000, 200000)], rule=HIST + "non-trivial: at least one variable was mocked"),
    "C10": dict(engines=[eng("C10", 45000, 200000)], rule=HIST + "non-trivial: a reconfiguration, refused reconfiguration, re-patch or rebuild, and a mocked call"),
    "C11": dict(engines=[eng("C11", 40000, 200000)], rule=HIST + "non-trivial: a second mock of a target or variable in force was attempted"),
    "C12": dict(engines=[eng("C12", 100000, 300000)],
                rule="a generated definition (a chain of When, To, Return, Origin with mutated signatures or values, or a target that is no function), judged by an independent predicate, and calls before and after; "
                     "non-trivial: refused, or a Return that must panic in the call"),
    "C13": dict(engines=[eng("C13", 100000, 300000)],
                rule="instance built over generated compositions of embedded types, GetMethod of one of its names, mocked, called on this and other instances; non-trivial: as stated by the engine (the method was found and called, or a field or a refusal was checked)"),
    "C14": dict(engines=[eng("C14", 18000, 200000), eng("C14", 1600, 20000, variant="race"), eng("C14t", 16000, 100000)],
                rule=HIST + "on generic targets, non-trivial: a call was answered by a hook; C14t: GenericInfo of generated generic functions whose used types are known, non-trivial: several types or a twin sharing the code"),
    "C15": dict(engines=[eng("C15", 4000, 30000), eng("C15", 1500, 12000, variant="stw"), eng("C16", 5000, 40000)],
                rule=HIST + "text segment, its permissions and the anonymous executable memory compared with what the mocks in force allow; non-trivial: two such comparisons and a mock built"),
    "C16": dict(engines=[eng("C16", 20000, 200000), eng("C16", 4000, 40000, variant="stw"), eng("C01s", 6000, 60000, variant="std")],
                rule="a function of random position-independent instructions with known boundaries, placed anywhere in pages of its own between neighbours, mocked in several ways, compared with itself before; the bytes and "
                     "permissions around it are compared too; non-trivial: its original ran through the mock, or it was too short"),
    "C17": dict(engines=[eng("C17h", 2000, 40000, concurrent=True, workers=3), eng("C17", 3000, 20000, concurrent=True),
                         eng("C17h", 300, 6000, concurrent=True, workers=3, variant="race", env={"GORACE": "halt_on_error=1 exitcode=66"}),
                         eng("C17r", 800, 8000, concurrent=True, variant="race", env={"GORACE": "halt_on_error=1 exitcode=66"})],
                rule=HIST + "non-trivial: concurrent callers and mocked calls; C17r: the same under the race detector"),
    "C18": dict(engines=[eng("C18", 2000, 10000, python="flags"), eng("C18d", 8000, 80000, env={"MOCKEY_DEBUG": "true"}),
                         eng("C18d", 1500, 12000, variant="stw", env={"MOCKEY_DEBUG": "true"})],
                rule="C18: a program compiled for amd64 or arm64 with random compiler, linker and build flags, run with random settings of the environment and of its standard error; the runtime tells it whether its calls are inlined; "
                     "all are non-trivial; C18d: " + HIST + "with MOCKEY_DEBUG=true and its standard output checked; non-trivial: diagnostics were printed and a call was mocked"),
    "C19": dict(engines=[eng("C19", 1600, 8000, configs=(6, 24))], thorough_s=3000, rounds=2,
                rule="the cases of the engines of C01 to C16 (those that need no particular schedule), run by a worker built in a generated configuration (toolchain, compiler, linker, instrumentation, processor "
                     "level, ABI experiment, garbage collector settings); non-trivial: as the engine of the case says"),
    "C20": dict(engines=[eng("C20", 8000, 60000), eng("C16", 4000, 40000), eng("C20", 2000, 14000, variant="arm64"), eng("C20", 400, 3000, variant="arm64-64"),
                         eng("C16", 900, 10000, variant="arm64"), eng("C16", 300, 3000, variant="arm64-16"), eng("C16", 300, 3000, variant="arm64-64"),
                         eng("C17h", 80, 1200, variant="arm64", concurrent=True, workers=3)], thorough_s=3000,
                assumptions=["the processor is an interpreter of arm64 instructions (emu/a64.c), sequentially consistent and without caches, under which the Go runtime and mockey run unmodified otherwise"],
                rule="the cases of the engines of C01 to C15 (those that need no particular schedule), of C16 (functions of random arm64 instructions) and of C17, run by a worker built for linux/arm64 (pages of 4, 16 or 64 kB), and for comparison by one for amd64; non-trivial: as the engine of the case says"),
}
