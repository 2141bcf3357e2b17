#!/usr/bin/env python3
"""The properties: text, anchors, technique, bounds.  Running this file rewrites properties.jsonl and
MANIFEST.json; run.py takes rule, bounds and assumptions for the evidence files from here."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = {}


def prop(pid, title, statement, over, quant, why, files, mechanism, technique, rule, bounds, note,
         level="model_checking", observe=(), state=(), assumptions=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mechanism=mechanism, technique=technique, rule=rule, bounds=bounds,
                      note=note, level=level, observe=list(observe), state=list(state),
                      assumptions=list(assumptions))


DIRECT = "exhaustive enumeration on the real code"

prop("C01", "Emission calls exactly the right slots, in order, for any reentrant program",
     "Emitting a signal calls every slot that was connected when the emission began and is connected and not blocked "
     "when its turn comes, in connection order (a slot connected at the front comes first), each at most once, with the emitted "
     "arguments, and no slot that was connected while the emission was running. This holds for any program of connects, "
     "disconnects, blocks, nested emissions, emission stops, disconnect-alls and exceptions issued from outside or from inside slots; a slot that "
     "stops the emission or throws ends only that emission, and the signal stays usable with the outer emission's context intact.",
     ["histories", "programs"],
     "every sequence of signal operations, each executed at top level or inside any slot invocation",
     "The tests run about thirty fixed scripts; reentrancy multiplies with the point of the emission at which an operation "
     "happens, and combinations (disconnect-all inside a nested emission followed by connect) are never exercised.",
     ["include/kl/signal.hpp"],
     [("deferred removal while an emission depth counter is non-zero", "signal::operator(), signal::cleanup_invalidated_slots_locked"),
      ("emission stops at the tail it found when it began", "signal::operator()"), ("this_signal emission context saved and restored", "tls_signal_info, signal::operator()")],
     "stateless model checking of every reentrant signal program against a reference model",
     "Every program of k actions; each action is a choice among connect (back, front, forwarding to another signal), "
     "disconnect, block/unblock, emit, disconnect-all, stop emission, disconnect current, throw; executed at top level "
     "or inside any slot call. A list model predicts which slot is called next; any deviation in calls, order, arguments, "
     "emptiness, counts or exception propagation fails.",
     "quick: 3 actions on signals with 0, 1 and 3 initial slots, 4 actions with 1; thorough: also 4 actions with 2 slots",
     "Bounded-exhaustive on the real header; trusts the list model in harness/signal_seq.cpp.",
     observe=["slot invocations", "exceptions leaving an emission", "empty()/num_slots()"])

prop("C02", "Concurrent signal use: deliveries respect connects, disconnects and blocks",
     "When threads emit, connect, disconnect, block and query one signal concurrently, no schedule deadlocks, races or crashes; "
     "each emission calls every slot that stayed connected and unblocked throughout it exactly once in connection order, and never a slot whose "
     "disconnection (or block, until unblocked) completed before the emission began, or one connected after the emission ended. "
     "Once all threads are done the connected slots are exactly those connected and not disconnected.",
     ["schedules"],
     "every interleaving, up to a preemption bound, of two and three threads each running short programs on a shared signal",
     "The suite's few multi-threaded tests see whichever interleavings the OS happens to produce.",
     ["include/kl/signal.hpp"],
     [("slot list and emission count under one mutex, atomic sender and block count of a slot", "class signal"),
      ("linked slot list kept alive while emissions run", "signal::operator() / cleanup_invalidated_slots_locked")],
     "controlled-scheduler model checking (all interleavings up to a preemption bound, happens-before race detection)",
     "The real header is compiled with thread-sanitizer instrumentation whose runtime is replaced by a deterministic scheduler: every atomic "
     "operation, mutex operation and plain access to shared memory is a scheduling point; all schedules within the preemption bound are run; "
     "vector clocks report data races; the complete event log is judged against the delivery rules.",
     "2 threads (2+1 operations), 3 threads (1 operation each), slots that act on the signal from inside; preemption bound 2-3 (quick), 3-4 (thorough)",
     "Exhaustive within the preemption bound under sequential consistency; weaker-memory reorderings are covered only through the race detector.",
     observe=["slot invocations with begin/end events", "results of operations"],
     assumptions=["sequentially consistent atomics (races reported by vector clocks)", "destroying or moving a signal concurrently with its use is the caller's error"])

prop("C03", "Slots live exactly as long as they are needed, and never dangle",
     "A slot's callable is destroyed exactly once, never while it is being called and never while it may still be called, and it is gone as soon as it has been "
     "disconnected, no emission is in progress and no handle refers to it; this includes slots that throw, disconnect themselves or others, and callables whose "
     "destructors use the signal again. No operation on a signal or handle, including a handle that outlives its signal, ever accesses freed memory, leaks a slot or self-deadlocks, in any program or thread schedule.",
     ["histories", "schedules", "programs"],
     "every bounded reentrant program (including operations inside slot destructors) and every bounded thread schedule",
     "Tests check a few lifetimes on straight-line code; use-after-free, leaks and self-deadlock depend on where in an emission an operation lands.",
     ["include/kl/signal.hpp"],
     [("intrusive reference counts on slots", "detail::slot_state::add_ref/release, removed_slots"), ("removal deferred until the outermost emission ends", "cleanup_invalidated_slots_locked")],
     "model checking of all bounded programs and schedules with lifetime monitors (ASan, live-object ledger)",
     "As C01 and C02, plus: each captured state registers construction/destruction; ASan and the ledger report use after free, double destruction, destruction during a call, leaks; "
     "destructors of captured states are program points at which further actions run.",
     "quick: 3 actions with 2 slots, with and without reentrant destructors, plus all C02 schedules; thorough: 4 actions and higher preemption bounds",
     "Bounded-exhaustive on the real header; same trusted model as C01/C02.",
     observe=["constructor/destructor ledger of slot state", "ASan"])

prop("C04", "Connection handles always tell and control the truth about their slot",
     "A connection reports connected exactly while its own slot is connected to a live signal; disconnecting through any copy affects every copy, is idempotent, and affects no other slot. "
     "A scoped connection disconnects when destroyed, reset or replaced unless released; blockers nest, so a slot is callable only while no blocker on it exists; moving or swapping a signal carries its slots and their handles along. "
     "Handles stay safe and report disconnected after their signal is gone.",
     ["histories"],
     "every bounded history of operations over connections, scoped connections, blockers and signals, including copies, moves, swaps and destruction in any order",
     "The tests exercise each handle operation once or twice in isolation; copies, moves and blockers interacting over a history are not covered.",
     ["include/kl/signal.hpp"],
     [("connection shares a reference-counted slot and its owner link", "class connection"), ("RAII handles", "class scoped_connection, class connection::blocker"),
      ("slots are re-parented on move and swap", "signal(signal&&), swap(signal&, signal&), rebind_locked")],
     "explicit exploration of all handle operation histories against a reference model",
     "Every history of d operations over two signals, connection, scoped connection and blocker variables; after each step every observer of every handle and the slots actually called by an emission are compared with the model; "
     "teardown in either order; all connect overloads enumerated.",
     "quick: depth 4 with 2 initial slots, 3 with 0 and 4; thorough: depth 5 / 4 / 4",
     "Bounded-exhaustive on the real header.", observe=["connected(), blocked(), valid()", "slot invocations"])

prop("C05", "A failed resource operation changes nothing",
     "When a PUT, PATCH, POST or DELETE on a resource does not succeed - unknown path, refused access, malformed or ill-typed payload, duplicate key, validator refusal, or any exception thrown by a validator or by copying/moving user values - "
     "the resource value and everything the modification tracker reports are exactly as before. There is no partially applied payload, lost element or left-over element.",
     ["histories", "inputs", "fault_sequences"],
     "every operation of the alphabet in every reachable state, and every copy/move of user values failing in turn",
     "Tests check rollback for single hand-picked failures; they do not cross verbs, node kinds, states and failure points.",
     ["include/kl/resource_op.hpp", "include/kl/resource.hpp"],
     [("candidate is built aside, then committed with rollback", "resources::detail::put/patch/post/del, rollback_value, pop_back_rollback")],
     "explicit-state exploration of resource operation histories plus exhaustive fault points",
     "All operations of an alphabet of ~880 (verb x path x payload over a schema with every node kind) are applied to every state reachable in d-1 operations; if the verb failed or threw, the full value and the tracker's answer for every watched address must equal the state before. "
     "A second scenario fails every single copy/move construction/assignment of a user type in each of 27 operations.",
     "quick: histories of 2 operations; thorough: 3 operations; a second, nested schema (every kind of container around a structure with every kind of container, attributes on each) is explored with every operation its addresses suggest, and with histories of 2 below structural changes",
     "Bounded-exhaustive on the real code; the tree is read back by hand-written conversion, not through the serializer.",
     observe=["full value tree", "changed_at for every address", "status code or exception"],
     assumptions=["at most one failure at a time: copies/moves done to undo a failure do not fail themselves"])

prop("C06", "Resource verbs do what they say, at exactly the addressed node",
     "GET returns exactly the addressed part of the tree; a successful PUT replaces it, PATCH merges into it, POST appends one element to a sequence, DELETE removes one element or empties an optional, and nothing else in the tree changes. "
     "Statuses tell what happened: 200/201/204 on success, 404 for an address that does not exist, 405 for an operation the node does not allow, 400 for a payload that does not fit the type, 409 with the reason for a violated rule. "
     "Each element has exactly one address: canonical decimal index, map key or child key.",
     ["histories", "inputs"],
     "every operation of the alphabet in every reachable state",
     "Tests check chosen pairs of verb and node; the status/effect matrix over node kinds, nesting and prior states is far larger.",
     ["include/kl/resource_op.hpp", "include/kl/path.hpp", "include/kl/detail/serialization.hpp"],
     [("path-directed visitor", "resources::detail::visit_node"), ("verbs", "resources::detail::get/put/post/patch/del, delete_direct_child")],
     "explicit-state exploration of resource operation histories against an interpretive reference model",
     "A reference model (schema as data, own JSON reader, own value tree) predicts status, reason and resulting tree of every operation in every explored state; GET of every existing and many non-existing addresses is compared with the model's rendering.",
     "quick: all histories of 2 operations over ~880 operations (states merged by tree); thorough: 3 operations and reads in every state; a second, nested schema (every kind of container around a structure with every kind of container, attributes on each) is explored with every operation its addresses suggest, and with histories of 2 below structural changes",
     "Bounded-exhaustive; trusts the reference model in harness/resource_model.hpp.", observe=["status", "body", "full value tree", "GET of every address"],
     assumptions=["DELETE/POST addressed inside an optional collection, and the 404/405 choice for absent positions of immutable collections, are left open"])

prop("C07", "Read-only nodes and element identities cannot be changed through them",
     "A write addressed at a read-only node, at anything below a subtree-read-only node, or at the key of a keyed element is refused with 405 and changes nothing; elements cannot be added to or removed from a collection that is read-only or subtree-read-only. "
     "A keyed element can only be replaced by one with the same key, so the set of keys of a collection changes only by POST, DELETE or replacing the collection or something above it.",
     ["histories", "inputs"],
     "every operation of the alphabet in every reachable state, over every combination of access attribute and node kind in the schema",
     "Tests check one depth and one verb per attribute; inheritance through nested structs, optionals, maps, keyed and plain sequences is sampled at a few points.",
     ["include/kl/resource_op.hpp", "include/kl/resource_attributes.hpp"],
     [("access context carried down the path", "access_context::update / is_node_read_only / is_child_node_read_only"), ("identity check on replacement", "element_node::preserves_identity / is_immutable_child")],
     "explicit-state exploration of resource operation histories against declarative access rules",
     "As C06; in addition every transition that changed the tree is judged by rules that do not depend on how verbs work: which immutable values differ and whether the operation was addressed above them, and whether element keys changed.",
     "quick: histories of 2 operations; thorough: 3; a second, nested schema (every kind of container around a structure with every kind of container, attributes on each) is explored with every operation its addresses suggest, and with histories of 2 below structural changes", "Bounded-exhaustive; schemas fixed in harness/resource_app.hpp and resource_deep_app.hpp.",
     observe=["status", "full value tree"])

prop("C08", "Modification tracking never misses and never invents a change",
     "After any successful operation every address whose value appeared, disappeared or changed is reported as changed since any generation before the operation, as are the operation's target and all its ancestors (the target of removing an element is its collection). "
     "Addresses that are neither above nor below the target are not reported, failed operations report nothing, and generations only grow. A plain notification marks exactly the path and its ancestors, a subtree notification also all descendants.",
     ["histories"],
     "every history of verbs, and every sequence of direct notifications, queried at every address and generation",
     "Tests look at a few addresses after one operation; missed notifications appear only at other addresses, after earlier notifications, or for other node kinds.",
     ["include/kl/resource.hpp", "include/kl/resource_op.hpp"],
     [("node and subtree generation maps", "modification_tracker::notify_changed / changed_at"), ("verbs notify after commit", "resources::detail::put/patch/post/del")],
     "explicit-state exploration of operation histories, semantic diff as oracle",
     "In every explored transition the old and new trees are diffed at every address of either tree and at ~350 further watched addresses and compared with changed_since/changed_at; separately all sequences of direct notifications over 12 paths with shared textual prefixes are compared with the declarative definition.",
     "quick: histories of 2 verbs, 4 notifications; thorough: 3 verbs, 5 notifications; a second, nested schema (every kind of container around a structure with every kind of container, attributes on each) is explored with every operation its addresses suggest, and with histories of 2 below structural changes", "Bounded-exhaustive on the real code.",
     observe=["changed_at, changed_since, current"])

prop("C09", "Committed resource trees always satisfy every validator and unique keys",
     "After any history of operations every validator in the tree (of the root, nested structures, optionals, map values and sequence elements) accepts the current value and keyed collections have unique keys. "
     "An operation is refused for that reason (409 with the message, or the validator's own exception propagating) exactly when its result would break such a rule or when the value being deleted vetoes it.",
     ["histories", "inputs"],
     "every operation of the alphabet in every reachable state, with validators on every node kind and cross-field rules at the root",
     "Tests cover a handful of validator placements; that every verb re-validates the whole tree, also for rules far from the written node, needs all combinations.",
     ["include/kl/resource_op.hpp"],
     [("whole-tree validation before commit", "validate_tree, validate_node_tree, validate_unique_child_keys"), ("duplicate check on append", "check_duplicate_child_key"), ("veto by the current value", "resources::detail::del")],
     "explicit-state exploration of resource operation histories with re-evaluated invariants",
     "As C06; after every transition the model's own implementation of all validators and key uniqueness is evaluated on the actual tree, and refusals must coincide with a rule the candidate tree breaks, with that rule's message.",
     "quick: histories of 2 operations; thorough: 3; a second, nested schema (every kind of container around a structure with every kind of container, attributes on each) is explored with every operation its addresses suggest, and with histories of 2 below structural changes", "Bounded-exhaustive; validators fixed in harness/resource_app.hpp and resource_deep_app.hpp.",
     observe=["full value tree", "status and body"])

prop("C10", "Path text parses to its normalized decoded segments or is rejected",
     "Parsing a path yields the decoded, non-empty segments in order with '.' segments dropped and '..' removing the preceding segment but never going above the root. "
     "Every '%' must start a two-digit hexadecimal escape and no escape may decode to '/'; any other text is rejected with a parse error. Escapes are decoded once, after splitting, so '%2e%2e' is a name and not a parent reference.",
     ["inputs"], "every text", "Tests parse about forty literals.", ["src/path.cpp", "include/kl/path.hpp"],
     [("single pass splitter and decoder", "path::parse, push_decoded_segment, pop_segment")],
     "bounded-exhaustive enumeration of texts against a reference parser",
     "Every text up to the length bound over the characters with syntactic meaning, every two-character escape in every context, every sequence of segment tokens; compared with an independent reference parser, inputs in exactly sized heap blocks under ASan.",
     "length 7 over the syntax alphabet; all 65536 escapes in several contexts; 5 tokens; depths beyond the inline capacity",
     "Bounded-exhaustive; all byte values are covered one position at a time.", observe=["segments, size, error"])

prop("C11", "Path objects and views stay consistent over any history of use",
     "All observers of a path - size, segments, joined suffixes, prefixes, and views with segments dropped from either side - agree with its segment list, also after copies, moves, clears and repeated assignment. "
     "Assigning a rejected text leaves the previous contents untouched, and assigning a text that refers to the path's own storage works.",
     ["inputs", "histories"], "every path and every view of it; every bounded history of set/clear/copy/move",
     "Tests read a few observers of freshly parsed paths; stale segments or offsets only show after reuse or at other offsets.",
     ["src/path.cpp", "include/kl/path.hpp"], [("offsets into one owned string", "path::value_, path::segments_"), ("parse aside, then replace", "path::set")],
     "exhaustive exploration of path histories and views against a reference model",
     "For every enumerated text all views and joins are compared; every history of set (valid, invalid, own text), clear, copy and move on two paths is compared with the model after each step.",
     "texts up to length 7; histories of 4 (quick) / 5 (thorough) operations", "Bounded-exhaustive under ASan.", observe=["size, operator[], joined, view, prefix"])

prop("C12", "Base64 encoding follows RFC 4648 and round-trips for every byte string",
     "For every byte string the standard encoding is the padded RFC 4648 base64 text and the URL encoding is the unpadded URL-safe text, and decoding either with the matching decoder gives the original bytes back.",
     ["inputs"], "every byte string", "Tests encode a dozen strings.", ["src/base64.cpp", "include/kl/base64.hpp"],
     [("block encoder with tail handling", "base64_encode / base64url_encode")],
     "exhaustive enumeration of inputs against a bitwise reference encoder",
     "All byte strings of length 0-3; for every length to 40 every byte value at every position on five backgrounds; all lengths to 300 and around powers of two to 64 KiB; exactly sized heap inputs under ASan.",
     "length 3 complete (16.8 M strings); longer inputs as listed", "Exhaustive for one complete block, positional beyond.", observe=["encoded text, decoded bytes"])

prop("C13", "Base64 decoders accept exactly the valid texts and decode them right",
     "The standard decoder accepts exactly texts of alphabet characters whose length is a multiple of four with at most two '=' only at the end; the URL decoder accepts its own alphabet with up to two optional trailing '=' and a remaining length not congruent to 1 modulo 4. "
     "Accepted text decodes to the bytes its characters denote; everything else, including any other byte at any position, is rejected without reading outside the text.",
     ["inputs"], "every text", "Tests decode about thirty literals, valid and invalid.", ["src/base64.cpp", "include/kl/base64.hpp"],
     [("lookup tables with invalid marks, padding rules", "base64_decode / base64url_decode")],
     "exhaustive enumeration of texts against a reference decoder",
     "All strings of length 0-2 over all bytes, class products to length 4, every class string to length 8, one and two replaced positions for every length to 40, large lengths; thorough adds every quad over all 256 byte values.",
     "as listed", "Exhaustive per block within classes; ASan on exactly sized inputs.", observe=["acceptance, decoded bytes"])

prop("C14", "Every value survives a binary write/read round trip in the documented layout",
     "For every supported type - arithmetic values in either byte order, enums, strings, vectors, sets, maps, pairs, optionals, variants, spans and nestings of them - writing a value and reading it back from the produced bytes gives an equal value and consumes exactly those bytes, whatever the destination held before. "
     "The layout is fixed: values back to back, 32-bit element counts, one-byte presence flags and alternative indices, big-endian wrappers byte-swapped.",
     ["inputs"], "every type composition and value", "Tests round-trip a couple of values per type.",
     ["include/kl/binary_rw.hpp", "include/kl/binary_rw/"], [("per-type stream operators", "binary_rw/*.hpp"), ("cursor", "binary_reader / binary_writer")],
     "bounded-exhaustive enumeration of types and values against a reference layout",
     "Every value of a bounded domain of ~60 types is written at several offsets into buffers with and without slack and compared byte for byte with a reference encoder, then read into every other value of its domain; sequences of values, large containers around 2^8 and 2^16 elements.",
     "containers up to 3 elements of small element domains; element counts 255-257, 65535-65537 for large containers", "Bounded-exhaustive; little-endian host.", observe=["bytes, values, cursor"],
     assumptions=["little-endian host as documented by the layout tests"])

prop("C15", "Binary readers never leave their buffer and fail cleanly on any input",
     "Reading any sequence of values from any bytes never accesses memory outside the buffer, never allocates more than the remaining input can justify, and never returns a value that the bytes do not spell. "
     "When the input is too short or malformed the reader enters its error state, reports it, stays there, and performs no further reads; skips, views and spans obey the same bounds for any argument.",
     ["inputs", "histories"], "every byte string and every program of reader operations", "Tests read well-formed buffers and a few truncated ones.",
     ["include/kl/binary_rw.hpp", "include/kl/binary_rw/"], [("bounds check before each access, sticky error flag", "binary_reader::read/skip/view/span"), ("length check before allocation", "binary_rw/{string,vector,map,set}.hpp")],
     "exhaustive enumeration of byte inputs and reader programs under ASan with an allocation limit",
     "Every truncation and single-byte replacement of every valid encoding for every type, every byte string to the length bound over structural byte values, hostile length prefixes, every program of reader operations; compared with a reference decoder; inputs in exactly sized heap blocks.",
     "arbitrary inputs to length 7 (9 thorough) over structural bytes; reader programs of 5 (6) operations", "Bounded-exhaustive on the real code.", observe=["error flag, position, values, ASan, allocation sizes"],
     assumptions=["bytes other than 0/1 for bool and the value left in a destination after a failed read are unspecified"])

prop("C16", "Binary writers never write outside their buffer",
     "Writing any sequence of values into a buffer of any size either stores the complete encoding of a value or, when it does not fit, enters a reported, sticky error state without touching any byte outside the buffer. "
     "The position never leaves the buffer; skips, spans and typed buffers obey the same bounds for any argument.",
     ["inputs", "histories"], "every value, buffer size and program of writer operations", "Tests overflow a buffer in two or three ways.",
     ["include/kl/binary_rw.hpp", "include/kl/binary_rw/"], [("bounds check before each store, sticky error flag", "binary_writer::write/skip/span")],
     "exhaustive enumeration of values, buffer sizes and writer programs under ASan",
     "Every value of every type into every buffer size from 0 to its encoding plus slack, guarded on both sides; every program of writer operations compared with a cursor model.",
     "all sizes up to encoding+3; programs of 5 (6) operations", "Bounded-exhaustive on the real code.", observe=["buffer and guard bytes, error flag, position"])

exec(open(os.path.join(HERE, "catalog2.py")).read()) if os.path.exists(os.path.join(HERE, "catalog2.py")) else None
exec(open(os.path.join(HERE, "catalog3.py")).read().split("\n", 1)[1])

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid in sorted(PROPS):
            p = PROPS[pid]
            f.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py --warm",
           "checks": [{"property": pid, "quick_cmd": "python3 run.py %s quick" % pid,
                       "thorough_cmd": "python3 run.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"],
                       "level": p["level"], "level_note": p["note"] + " Bounds: " + p["bounds"]}
                      for pid, p in sorted(PROPS.items())],
           "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks in /repo: harnesses compile /repo's headers and sources as they are. "
                    "properties.jsonl and MANIFEST.json are generated by catalog.py."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

    design = os.path.join(HERE, "DESIGN.md")
    text = open(design).read()
    a, b = "<!-- generated by catalog.py: begin -->\n", "<!-- generated by catalog.py: end -->\n"
    if a in text:
        out = []
        for pid, p in sorted(PROPS.items()):
            out += ["### %s %s" % (pid, p["title"]), "",
                    "*Guarantee.* " + p["statement"], "",
                    "*Quantifies over* " + p["quant"] + ".", "",
                    "*Deciding method.* " + p["technique"] + ". " + p["rule"], "",
                    "*Bounds.* " + p["bounds"].rstrip(".") + ".", "",
                    "*Strength.* " + p["note"], "",
                    "*Why the tests cannot settle it.* " + p["why"], ""]
            if p["assumptions"]:
                out += ["*Assumptions.* " + "; ".join(p["assumptions"]) + ".", ""]
        text = text[:text.index(a) + len(a)] + "\n" + "\n".join(out) + text[text.index(b):]
        with open(design, "w") as f:
            f.write(text)


if __name__ == "__main__":
    main()
