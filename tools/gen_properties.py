"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

API = ["to_dict/to_tuple/from_dict/from_tuple", "to_json/from_json", "to_msgpack/from_msgpack",
       "to_yaml/from_yaml", "to_toml/from_toml", "to_pickle/from_pickle"]

prop("C01", "Concurrent first use of plain dataclasses gives the single-threaded results",
     "When several threads make the first serialization or deserialization calls on the same undecorated "
     "dataclass, or on types that contain it, each call returns exactly what it would return if it were the only "
     "call. No interleaving makes a call fail, or use a class that is only partly prepared.",
     ["schedules"], "every interleaving of the threads, every shape of class graph (nested, shared, recursive, "
     "mutually recursive), every format and direction",
     "Tests call the API from one thread; the window in which a class is half prepared is a few thousand bytecodes "
     "long and opens once per class per process.",
     ["serde/se.py", "serde/de.py", "serde/core.py"],
     [("lazy generation on first use", "serde/se.py to_obj; serde/de.py from_obj"),
      ("generation stack", "serde/se.py GENERATION_STACK; serde/de.py GENERATION_STACK"),
      ("readiness test", "is_dataclass_without_se / is_dataclass_without_de")],
     [("GENERATION_STACK", "classes whose code is being generated", "serde/se.py, serde/de.py"),
      ("__serde__ scope", "generated functions of a class", "serde/core.py Scope")], API)

prop("C02", "Concurrent first use of unions and other non-class targets is consistent",
     "When several threads make the first calls with the same or equal-looking targets that are not classes - unions under any "
     "tagging, optionals, containers of them, and directly serializable standard types - each call "
     "returns exactly what it would return alone. A union is always encoded and decoded with the tagging and the members that "
     "call asked for.",
     ["schedules"], "every interleaving, every union member set and order, every tagging and tag name",
     "The wrapper classes are built once per process and cached in a shared table; tests reach each entry from one "
     "thread, after it was built by that same thread.",
     ["serde/core.py", "serde/se.py", "serde/de.py"],
     [("wrapper cache", "serde/core.py Cache"), ("cache key", "serde/core.py UnionCacheKey")],
     [("CACHE", "wrapper class per target type", "serde/core.py")], API)

prop("C03", "Classes defined concurrently keep their own options and member codecs",
     "When several threads define or decorate classes at the same time - independent ones, ones that share "
     "undecorated member types, and recursive ones - every class ends up with the behaviour its own declaration asks for "
     "(names, defaults, skipping, tagging, checking, custom codecs), exactly as if the definitions had run one after another.",
     ["schedules", "programs"], "every interleaving of definitions, every combination of class and field options",
     "Tests define classes at import time on one thread; shared generation state is never contended.",
     ["serde/__init__.py", "serde/se.py", "serde/de.py", "serde/core.py", "serde/compat.py"],
     [("serde decorator", "serde/__init__.py"), ("serialize/deserialize wrap", "serde/se.py, serde/de.py"),
      ("per-class scope and globals", "serde/core.py Scope, add_func")],
     [("GENERATION_STACK", "classes whose code is being generated", "serde/se.py, serde/de.py")],
     ["serde", "serialize", "deserialize"])

prop("C04", "Concurrent calls do not influence one another",
     "Any number of serialization and deserialization calls may run at the same time on the same prepared classes, the same "
     "values and the same documents, in any mix of formats and per-call options; each returns what it would return if "
     "run alone. The options, data, errors and intermediate values of one call are never visible in another.",
     ["schedules"], "every interleaving of calls, every mix of formats, directions and per-call options",
     "Tests run calls one at a time; leakage through shared state needs a switch inside a call.",
     ["serde/se.py", "serde/de.py", "serde/core.py", "serde/json.py", "serde/msgpack.py", "serde/yaml.py",
      "serde/toml.py", "serde/pickle.py"],
     [("options passed as arguments", "serde/se.py to_obj; serde/de.py from_obj"),
      ("format front ends", "serde/json.py, msgpack.py, yaml.py, toml.py, pickle.py")], [], API)

prop("C05", "A call's result does not depend on what the process did before",
     "The result of a call is determined by its arguments, the declarations of the classes involved and the registered global "
     "codecs. It does not depend on which types, values, formats, options or union orderings were used earlier, on "
     "which classes were defined, dropped or first used before, or on earlier calls that failed.",
     ["histories"], "every sequence of preceding definitions, calls and failures, successful or not",
     "The library keeps process-wide caches of type predicates, names and wrapper classes; a wrong key shows only after a specific "
     "earlier call, and tests check calls in one fixed order.",
     ["serde/compat.py", "serde/core.py", "serde/se.py", "serde/de.py"],
     [("memoised type predicates and names", "serde/compat.py cache"),
      ("wrapper cache keys", "serde/core.py Cache, UnionCacheKey")],
     [("functools caches", "answers per type", "serde/compat.py"), ("CACHE", "wrapper classes", "serde/core.py")], API)

prop("C06", "Class preparation cut short by a failure can simply be retried",
     "If preparing a class - by decorating it, or on first use - is cut short at any point by an exception (an interrupt, "
     "memory or stack exhaustion inside the library's or the user's code, an annotation that cannot be resolved yet, a failing user hook), then performing the same operation again "
     "once the cause is gone succeeds with the result an undisturbed process gives. The failure changes nothing for any other class.",
     ["crash_points", "fault_sequences"], "every point at which preparation can be cut short, every class graph",
     "Tests only see preparation that succeeds or fails for a static reason; a failure half way needs fault injection.",
     ["serde/se.py", "serde/de.py", "serde/core.py", "serde/compat.py"],
     [("cleanup of generation state", "serde/se.py serialize; serde/de.py deserialize"),
      ("readiness flag set last", "serde/se.py TO_DICT; serde/de.py FROM_DICT"),
      ("cache entry stored last", "serde/core.py Cache")],
     [("GENERATION_STACK", "classes whose code is being generated", "serde/se.py, serde/de.py")], API)

prop("C07", "A call that fails part-way leaves no trace",
     "If a serialization or deserialization call on prepared classes is cut short at any point - by an interrupt, by stack or memory exhaustion "
     "inside the library's or the user's code, by a failing user callback, or by bad data - its arguments are left unmodified. Every later call, "
     "including the same call repeated, behaves as if the failed one had never been made.",
     ["crash_points", "fault_sequences", "histories"], "every point of every call, every kind of failure, alone or while other "
     "threads are running calls",
     "Tests check that failing calls raise; they do not cut calls short at arbitrary points and re-run the rest of a workload.",
     ["serde/se.py", "serde/de.py", "serde/core.py"],
     [("no per-call state outside the call's frame", "serde/se.py, serde/de.py generated functions")], [], API)

prop("C08", "Interrupts and user errors always reach the caller",
     "An interrupt (KeyboardInterrupt, SystemExit or any other non-Exception signal) raised at any point inside a call or class "
     "definition reaches the caller as that very exception, never swallowed, wrapped or turned into a result. An error raised by a "
     "class's own constructor hook reaches the caller of a decoding call as the original exception object; an error raised by a user "
     "codec, predicate or default factory makes the call fail, and is not mistaken for success. Trying the next member of a "
     "union after a member's Exception is the only permitted recovery.",
     ["crash_points", "fault_sequences"], "every point at which an interrupt can arrive, every user callback and every position of it "
     "in a nested value",
     "Tests raise from one or two hooks at a fixed place; interrupts at arbitrary points are never simulated.",
     ["serde/se.py", "serde/de.py", "serde/compat.py", "serde/core.py"],
     [("except Exception boundaries", "serde/se.py to_obj; serde/de.py from_obj and templates"),
      ("UserError unwrapping", "serde/de.py from_obj")], [], API)

prop("C09", "Damaged documents are rejected or decode to well-typed objects",
     "Decoding a document that was truncated, torn, spliced, reordered or had bytes changed either raises or returns an object whose "
     "fields conform to their declared types under strict or coercing checks (element types inside containers excepted). A failure is the format "
     "parser's own error, the library's own error or the class's own validation error. The intact document still decodes "
     "to the original value afterwards.",
     ["fault_sequences", "inputs"], "every class, every format, every damage to the stored or transmitted bytes",
     "Tests use hand-written invalid inputs; damage produces structures nobody writes by hand.",
     ["serde/de.py", "serde/core.py", "serde/json.py", "serde/msgpack.py", "serde/yaml.py", "serde/toml.py"],
     [("runtime type check of the constructor", "serde/de.py deserialize (beartype)"),
      ("error wrapping", "serde/de.py from_obj"), ("missing field check", "serde/de.py dict template"),
      ("union and literal checks", "serde/de.py union, literal templates")], [], API)

prop("C10", "Arguments are never modified, not even temporarily",
     "Serialization never modifies the value it is given and deserialization never modifies the document or mapping it is given. At every "
     "instant of every call, including calls that fail, another thread looking at the arguments - and at declared default values - sees "
     "them unchanged.",
     ["schedules", "crash_points"], "every instant at which another thread can look, every class option, every failing or succeeding call",
     "Tests compare arguments after a call at best; a modify-then-restore is visible only from another thread in the middle of a call.",
     ["serde/se.py", "serde/de.py", "serde/core.py"],
     [("flatten projection copies", "serde/de.py _project_flattened_data"),
      ("tag insertion into a fresh dict", "serde/se.py union template")], [], API)

prop("C11", "Objects produced by different calls share no mutable state",
     "Mutable objects produced by one call - results, values made by default factories, intermediate documents - are never handed out again "
     "by another call, on any thread. Mutating everything reachable from one result never changes another result or the outcome of a later "
     "call; only objects the caller passed in, or declared as a plain default, may be shared.",
     ["histories", "schedules"], "every sequence of calls with results mutated in between, every class and format",
     "Tests look at one result at a time and do not mutate it before calling again.",
     ["serde/de.py", "serde/se.py", "serde/core.py"],
     [("default factory called per object", "serde/de.py Renderer.default"), ("fresh containers", "serde/se.py, serde/de.py templates")],
     [("Scope.defaults", "defaults and factories of a class", "serde/core.py")], API)

prop("C12", "Calls always finish: re-entrant and waiting callbacks cannot deadlock",
     "Every call and class definition finishes within a bounded number of steps in every interleaving, also when user callbacks call back into the library, "
     "define classes or register codecs, and when other threads were interrupted part-way. A user callback running inside a call on prepared classes may wait "
     "for another thread's library calls to finish, and those calls do finish.",
     ["schedules", "fault_sequences"], "every interleaving, every nesting of callbacks, interrupts at every point",
     "Tests have one thread and callbacks that do not wait.",
     ["serde/se.py", "serde/de.py", "serde/core.py"],
     [("recursion guard of the generator", "GENERATION_STACK"), ("no lock held around user callbacks", "serde/se.py, serde/de.py")], [], API)

prop("C13", "Global codec registration takes effect atomically and in order",
     "Once registering a global codec has returned, every class defined afterwards and every later top-level call uses it, and a later registration for the same type "
     "overrides an earlier one. A class being defined while a codec is registered uses either the old or the new set of codecs, "
     "and never applies a codec to a type it was not registered for. Classes defined before keep working as they did.",
     ["schedules", "histories"], "every order and interleaving of registrations, definitions and calls",
     "Tests register at most one codec, before anything else, on one thread.",
     ["serde/core.py", "serde/se.py", "serde/de.py"],
     [("registration lists", "serde/core.py add_serializer, add_deserializer"),
      ("index of a codec in generated code", "Renderer.render"), ("top-level lookup", "find_global_class_serializer/deserializer")],
     [("GLOBAL_CLASS_SERIALIZER/DESERIALIZER", "registered codecs in order", "serde/core.py")], ["add_serializer", "add_deserializer"] + API)

prop("C14", "Processes agree: what one writes, any other reads back equal",
     "A supported value written in any format by one process is read back as an equal value by any other process with the same declarations, whatever the hash seed, object layout, "
     "random-number state, JSON backend, order of class preparation and number of threads in either. For the same value two such processes "
     "using the same backend produce the same document, except for the order of set elements.",
     ["configurations", "histories", "schedules"], "every pair of process configurations and preparation histories, every class and value",
     "Tests write and read within one process, whose hash seed is fixed; each process configuration is a separate execution.",
     ["serde/compat.py", "serde/se.py", "serde/de.py", "serde/json.py", "serde/msgpack.py", "serde/yaml.py", "serde/toml.py", "serde/pickle.py"],
     [("field order follows declaration", "serde/core.py fields"), ("type collection order", "serde/compat.py iter_types, iter_literals"),
      ("backend choice", "serde/json.py")], [], API)

# Properties that are pure functions of one call's input: not simulation targets (see MANIFEST not_applicable).
prop("C20", "Field naming and layout options produce the documented shape",
     "Renaming, case conversion, aliases, flattening, transparent wrappers and class-variable serialization yield the documented document shape, and "
     "decoding accepts exactly the documented names.",
     ["inputs", "programs"], "every class declaration and value", "Tests sample declarations; options combine freely.",
     ["serde/core.py", "serde/se.py", "serde/de.py"], [("conv", "serde/core.py"), ("templates", "serde/se.py, serde/de.py")], [], API)
prop("C21", "Skip options drop exactly the fields they describe",
     "A field is omitted from the output exactly when one of its skip options, or of its class's, says so for that value; an omitted field is restored from its default.",
     ["inputs", "programs"], "every combination of skip options and value", "Tests sample a few combinations.",
     ["serde/core.py", "serde/se.py", "serde/de.py"], [("skip functions", "serde/core.py skip_if_*")], [], API)
prop("C22", "Strict checking rejects, and coercion converts, wrongly typed fields",
     "With strict checking a field value of the wrong type is rejected; with coercion it is converted or rejected; with checking disabled it is passed through.",
     ["inputs", "programs"], "every declared type and wrong value", "Tests sample types and values.",
     ["serde/de.py", "serde/core.py"], [("beartype, coerce_object", "serde/de.py, serde/core.py")], [], API)
prop("C23", "Tagged unions encode the member that was given",
     "Under external, internal and adjacent tagging a union value of dataclass type is encoded with its own type's tag and decodes to that same type; untagged picks the first member that fits.",
     ["inputs", "programs"], "every union and value", "Tests sample unions.",
     ["serde/core.py", "serde/se.py", "serde/de.py"], [("union templates", "serde/se.py, serde/de.py")], [], API)
prop("C24", "Unknown and missing fields are handled as declared",
     "Classes that deny unknown fields reject every undeclared key and no declared one; a missing field without default is reported by name; one with a default gets it.",
     ["inputs", "programs"], "every declaration and key set", "Tests sample key sets.",
     ["serde/de.py"], [("dict template", "serde/de.py")], [], API)
prop("C25", "The most specific custom codec wins",
     "A field codec overrides a class codec, a class codec overrides a global one, and SerdeSkip falls back to the default behaviour.",
     ["programs"], "every placement of custom codecs", "Tests sample placements.",
     ["serde/se.py", "serde/de.py"], [("Renderer.render", "serde/se.py, serde/de.py")], [], API)
prop("C26", "Generic classes decode their parameters with the given arguments",
     "A parametrised generic class decodes fields typed by its parameters as the given arguments, also through nesting and renaming of parameters.",
     ["programs", "inputs"], "every generic hierarchy", "Tests sample hierarchies.",
     ["serde/compat.py", "serde/de.py"], [("get_generic_arg", "serde/compat.py")], [], API)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
