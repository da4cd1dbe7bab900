# What decides each property: scheduler drivers (src/drv) and enumeration suites (src/seq).
# "asan": suites that run with the address sanitizer, "suitekind": how the others run.
SCHED = ["boost.asio and the C++ runtime behave as compiled here", "kernel sockets, epoll and eventfd behave as the fake kernel of src/sched/engine.cpp",
         "sequentially consistent memory (conflicting unsynchronised accesses are reported by the race build)", "thread switches happen at synchronisation operations, system calls and shared atomics"]
SEQ = ["the reference codec of src/ref.h states the D-Bus specification", "inputs outside the stated bounds and alphabets are not judged"]
PLAN = {
    "C01": {"suites": ["c01.cpp"], "assumptions": SEQ},
    "C02": {"suites": ["c01.cpp"], "assumptions": SEQ},
    "C03": {"drivers": ["wire.cpp"], "suites": ["c03.cpp"], "suitekind": "seq", "assumptions": SEQ + SCHED},
    "C04": {"drivers": ["wire.cpp"], "suites": ["c04.cpp"], "assumptions": SEQ + SCHED},
    "C05": {"drivers": ["wire.cpp"], "suites": ["c04.cpp"], "assumptions": SEQ + SCHED},
    "C06": {"suites": ["c06.cpp"], "assumptions": SEQ},
    "C07": {"suites": ["c06.cpp"], "assumptions": SEQ},
    "C08": {"drivers": ["c08.cpp"], "assumptions": SCHED},
    "C09": {"drivers": ["c09.cpp"], "assumptions": SCHED},
    "C10": {"drivers": ["c09.cpp"], "assumptions": SCHED},
    "C11": {"drivers": ["c11.cpp"], "assumptions": SCHED},
    "C12": {"drivers": ["c12.cpp"], "suites": ["c12.cpp"], "assumptions": SCHED},
    "C13": {"drivers": ["c13.cpp"], "assumptions": SCHED},
    "C14": {"drivers": ["c14.cpp"], "assumptions": SCHED},
    "C15": {"drivers": ["c14.cpp"], "assumptions": SCHED},
    "C16": {"drivers": ["c16.cpp"], "assumptions": SCHED},
    "C17": {"drivers": ["c17.cpp"], "assumptions": SCHED},
    "C18": {"suites": ["c18.cpp"], "assumptions": SEQ},
    "C19": {"drivers": ["wire.cpp"], "suites": ["c18.cpp"], "assumptions": SEQ + SCHED},
    "C20": {"drivers": ["c20.cpp"], "assumptions": SCHED},
    "C21": {"drivers": ["c21.cpp"], "assumptions": SCHED},
    "C23": {"suites": ["c23.cpp"], "assumptions": SEQ},
    "C24": {"drivers": ["c24.cpp"], "suites": ["c24.cpp"], "asan": ["c24_self", "c24_short"], "assumptions": SEQ + SCHED},
    "C25": {"drivers": ["c25.cpp"], "assumptions": SCHED},
    "C26": {"drivers": ["c25.cpp"], "assumptions": SCHED},
    "C22": {"drivers": ["wire.cpp"], "suites": ["c18.cpp"], "assumptions": SEQ + SCHED},
}
