"""Per-property build and budget table."""
REAL = ["asyncpp headers under /repo/include compiled unmodified (instrumented)", "libstdc++ std::thread/mutex/condition_variable/function/containers (real code above the pthread interface)"]
STUB = ["kernel threads and scheduler (user-level simulated threads)", "pthread mutex/condvar/rwlock/once/create/join, futex, sched_yield", "clocks and sleeping", "operator new/delete (checking arena)", "mmap/munmap of fiber stacks (checked placement)"]

PROPS = {
    "C01": {"builds": [{"src": "c01_manual_events.cpp", "label": "events", "quick": 3000000}]},
    "C02": {"builds": [{"src": "c02_auto_events.cpp", "label": "events", "quick": 3000000}]},
    "C04": {"builds": [{"src": "c04_latch.cpp", "label": "latch", "quick": 3000000}]},
    "C05": {"builds": [{"src": "c05_channel.cpp", "label": "channel", "quick": 3000000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "channel", "quick": 300000}]},
    "C06": {"builds": [{"src": "c06_queue.cpp", "label": "queue", "quick": 3000000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "queue,queue_order,queue_throwing", "quick": 300000}]},
    "C07": {"builds": [{"src": "c07_promise.cpp", "label": "promise", "quick": 2000000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "promise,promise_void", "quick": 300000}]},
    "C08": {"builds": [{"src": "c08_combinators.cpp", "label": "combinators", "quick": 2000000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "combinators", "quick": 300000}]},
    "C09": {"builds": [{"src": "c09_thread_pool.cpp", "label": "pool", "quick": 2000000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "thread_pool", "quick": 300000}]},
    "C10": {"builds": [{"src": "c10_timer.cpp", "label": "timer", "quick": 1600000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "timer", "quick": 300000}]},
    "C11": {"builds": [{"src": "c11_timer_cancel.cpp", "label": "std", "quick": 1000000}, {"src": "c11_timer_cancel.cpp", "label": "polyfill", "flags": ["-DASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1"], "quick": 1000000}]},
    "C12": {"builds": [{"src": "c12_simple_dispatcher.cpp", "label": "simple", "quick": 2000000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "simple_dispatcher", "quick": 300000}]},
    "C13": {"builds": [{"src": "c13_affinity.cpp", "label": "affinity", "quick": 1000000}]},
    "C14": {"builds": [{"src": "c14_launch_scope.cpp", "label": "scope", "quick": 2000000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "coroutines", "quick": 300000}]},
    "C15": {"builds": [{"src": "c15_tasks.cpp", "label": "tasks", "quick": 2000000}, {"src": "c15_tasks.cpp", "label": "deep", "flags": ["-O2", "-DSIM_DEEP"], "scen": "deep", "quick": 800}, {"src": "c22_failures.cpp", "label": "failures", "scen": "coroutines", "quick": 300000}]},
    "C16": {"builds": [{"src": "c16_async_generator.cpp", "label": "generator", "quick": 2000000}, {"src": "c16_async_generator.cpp", "label": "deep", "flags": ["-O2", "-DSIM_DEEP"], "scen": "deep", "quick": 800}]},
    "C17": {"builds": [{"src": "c17_fiber.cpp", "label": "fiber", "quick": 1600000}, {"src": "c17_fiber.cpp", "label": "ucontext", "flags": ["-DASYNCPP_FIBER_USE_UCONTEXT=1"], "quick": 600000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "fiber", "quick": 300000}]},
    "C18": {"builds": [{"src": "c18_signal.cpp", "label": "signal", "quick": 1400000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "signal", "quick": 300000}]},
    "C19": {"builds": [{"src": "c19_ref.cpp", "label": "ref", "quick": 2000000}]},
    "C20": {"builds": [{"src": "c20_stop_token.cpp", "label": "stop", "flags": ["-DASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1"], "quick": 2000000}]},
    "C21": {"builds": [{"src": "c21_threadsafe_queue.cpp", "label": "queue", "quick": 1400000}, {"src": "c22_failures.cpp", "label": "failures", "scen": "threadsafe_queue", "quick": 300000}]},
    "C22": {"builds": [{"src": "c22_failures.cpp", "label": "failures", "quick": 2000000}, {"src": "c22_failures.cpp", "label": "polyfill", "flags": ["-DASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1"], "quick": 300000}]},
    "C03": {"builds": [{"src": "c03_mutex.cpp", "label": "mutex", "quick": 3000000}]},
}

# what ships: optimised and without assertions
for _p in PROPS.values():
    _b = _p["builds"][0]
    _p["builds"].append({"src": _b["src"], "label": "release", "flags": _b.get("flags", []) + ["-O2", "-DNDEBUG"], "quick": _b["quick"] // 5})

# undefined behaviour traps (misaligned, null or out of bounds accesses, overflow, values a type does not have)
for _p in PROPS.values():
    _b = _p["builds"][0]
    _p["builds"].append({"src": _b["src"], "label": "checked", "flags": _b.get("flags", []) + ["-fsanitize=undefined", "-fno-sanitize=null", "-fsanitize-undefined-trap-on-error"], "quick": _b["quick"] // 10})
