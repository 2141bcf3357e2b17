import os
_H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ASAN_LINK = ["-fsanitize=address,undefined", "-lpthread"]

HARNESSES = {
    "base64": {"src": ["base64.cpp"], "repo_src": ["src/base64.cpp"], "flags": ASAN,
               "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "path": {"src": ["path.cpp"], "repo_src": ["src/path.cpp"], "flags": ASAN,
             "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    **{"binary_rw%d" % n: {"src": [("binary_rw.cpp", ["-DCHUNK=%d" % k]) for k in range(4)],
                           "flags": ASAN + ["-DPART=%d" % n],
                           "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK} for n in (14, 15, 16)},
    "resource": {"src": ["resource.cpp"] + [("resource_verbs.cpp", ["-DVERB=%d" % k]) for k in range(5)],
                 "repo_src": ["src/json.cpp", "src/path.cpp", "src/serialization_error.cpp"], "flags": ASAN,
                 "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "resource_deep": {"src": ["resource_deep.cpp"] + [("resource_deep_verbs.cpp", ["-DVERB=%d" % k]) for k in range(5)],
                      "repo_src": ["src/json.cpp", "src/path.cpp", "src/serialization_error.cpp"], "flags": ASAN,
                      "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "resource_crowd": {"src": ["resource_crowd.cpp"],
                       "repo_src": ["src/json.cpp", "src/path.cpp", "src/serialization_error.cpp"], "flags": ASAN,
                       "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "access": {"src": ["access.cpp"] + [("access_ops.cpp", ["-DGROUP=%d" % k]) for k in range(6)],
               "repo_src": ["src/json.cpp", "src/yaml.cpp", "src/path.cpp", "src/serialization_error.cpp"], "flags": ASAN + ["-I" + os.path.join(_H, "shim")],
               "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK + ["-lyaml-cpp"]},
    **{"serial_%s%s" % (b, k): {"src": [("serial.cpp", ["-DWITH_YAML=%d" % (b == "yaml"), "-DGROUP=%d" % g]) for g in gs] + ([("serial_more.cpp", ["-DWITH_YAML=%d" % (b == "yaml")])] if not k else []),
                                "repo_src": ["src/%s.cpp" % b, "src/serialization_error.cpp"], "flags": ASAN + ["-I" + os.path.join(_H, "shim")],
                                "engine_flags": ["-fsanitize=address"],
                                "link": ASAN_LINK + (["-lyaml-cpp"] if b == "yaml" else [])}
       for b in ("json", "yaml") for k, gs in (("", range(4)), ("_attr", (4, 5)))},
    **{"views_" + b: {"src": [("views.cpp", ["-DWITH_YAML=%d" % (b == "yaml")])],
                      "repo_src": ["src/%s.cpp" % b, "src/serialization_error.cpp"], "flags": ASAN + ["-I" + os.path.join(_H, "shim")],
                      "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK + (["-lyaml-cpp"] if b == "yaml" else [])}
       for b in ("json", "yaml")},
    **{"custom_" + b: {"src": [("custom.cpp", ["-DWITH_YAML=%d" % (b == "yaml"), "-DGROUP=%d" % g]) for g in range(6)],
                       "repo_src": ["src/%s.cpp" % b, "src/serialization_error.cpp"], "flags": ["-O0", "-fsanitize=address"] + ["-I" + os.path.join(_H, "shim")],
                       "engine_flags": ["-fsanitize=address"], "link": ["-fsanitize=address"] + (["-lyaml-cpp"] if b == "yaml" else [])}
       for b in ("json", "yaml")},
    **{"enums%d" % n: {"src": ["enums.cpp"], "flags": ASAN + ["-DPART=%d" % n], "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK} for n in (22, 23, 24)},
    "names": {"py": "names.py"},
    "text": {"src": ["text.cpp"], "flags": ASAN, "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "ranges": {"src": ["ranges.cpp"], "flags": ASAN, "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "file_view": {"src": ["file_view.cpp"], "repo_src": ["src/file_view_unix.cpp"], "flags": ASAN,
                  "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK + ["-Wl,--wrap=" + f for f in (
                      "open", "open64", "openat", "close", "fstat", "fstat64", "stat", "read", "pread", "lseek",
                      "mmap", "mmap64", "munmap")]},
    "control": {"src": ["control.cpp"], "basic": True, "flags": ASAN, "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "ctti": {"src": ["ctti.cpp"], "flags": ASAN, "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "meta": {"src": ["meta.cpp"], "flags": ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"], "engine_flags": ["-fsanitize=address"], "link": ASAN_LINK},
    "signal_seq": {"src": ["signal_seq.cpp"], "flags": ASAN, "engine_flags": ["-fsanitize=address"],
                   "link": ASAN_LINK},
    "signal_conc": {"src": ["signal_conc.cpp"], "engine": ["sched.cpp"],
                    "flags": ["-O1", "-fsanitize=thread", "-Wno-tsan"],
                    "link": ["-lpthread"] + ["-Wl,--wrap=" + f for f in (
                        "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
                        "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock",
                        "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "sched_yield", "nanosleep",
                        "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast",
                        "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
                        "_ZNSt18condition_variable10notify_oneEv",
                        "_ZNSt18condition_variable10notify_allEv")]},
}

# property: (harnesses, situations the exploration has to reach)
CHECKS = {k: {"harness": h, "must_reach": m} for k, (h, m) in {
    "C01": (["signal_seq"], ["slot invocations"]),
    "C02": (["signal_conc"], []),
    "C03": (["signal_seq", "signal_conc"], []),
    "C04": (["signal_seq"], []),
    "C05": (["resource", "resource_deep", "resource_crowd"], ["failed operations", "throwing copies/moves"]),
    "C06": (["resource", "resource_deep", "resource_crowd"], ["successful operations", "refused operations", "reads"]),
    "C07": (["resource", "resource_deep", "resource_crowd"], ["writes to immutable nodes"]),
    "C08": (["resource", "resource_deep", "resource_crowd"], ["tracked modifications"]),
    "C09": (["resource", "resource_deep", "resource_crowd"], ["vetoed operations"]),
    "C10": (["path"], ["accepted", "rejected"]),
    "C11": (["path"], ["failed set"]),
    "C12": (["base64"], []),
    "C13": (["base64"], ["accepted", "rejected"]),
    "C14": (["binary_rw14"], []),
    "C15": (["binary_rw15"], ["decoded", "refused"]),
    "C16": (["binary_rw16"], ["overflow refused"]),
    "C17": (["serial_json"], ["values written", "round trips"]),
    "C18": (["serial_json"], ["accepted documents", "refused documents"]),
    "C19": (["serial_json"], ["accepted documents", "refused documents"]),
    "C20": (["serial_yaml"], ["values written", "round trips", "accepted documents", "refused documents"]),
    "C21": (["serial_json_attr", "serial_yaml_attr"], ["values written", "round trips", "accepted documents", "refused documents", "colliding values refused"]),
    "C22": (["enums22"], ["operand pairs"]),
    "C23": (["enums23"], ["named values", "unnamed values", "known strings", "unknown strings"]),
    "C24": (["enums24"], ["in range", "out of range"]),
    "C25": (["text"], ["texts with empty tokens", "empty sequences", "joined sequences"]),
    "C29": (["text"], ["bytes swept", "lengths"]),
    "C26": (["ranges"], ["unequal lengths", "empty zips", "non-empty zips", "intervals"]),
    "C28": (["file_view"], ["failed constructions", "successful constructions", "sizes"]),
    "C27": (["control"], ["histories", "faults", "throws"]),
    "C30": (["control"], ["actions run by unwinding", "programs left by an exception"]),
    "C32": (["control"], ["matches"]),
    "C33": (["meta"], ["type lists", "callables", "bit patterns", "ranked overload sets"]),
    "C34": (["access"], ["addresses reached", "addresses that do not exist", "documents refused", "documents accepted"]),
    "C35": (["custom_json", "custom_yaml"], ["values written", "documents accepted", "documents refused", "exceptions passed on"]),
    "C36": (["views_json", "views_yaml"], ["views written", "typed reads through a view", "typed reads refused through a view", "elements found", "elements absent", "texts accepted", "texts refused"]),
    "C37": (["names"], ["declarations accepted", "declarations refused"]),
    "C31": (["ctti"], ["field subsets", "present attributes", "absent attributes"]),
}.items()}
