"""Source of properties.jsonl and of the per-property text in MANIFEST.json (regenerate with tools/gen.py)."""
P = []
H, S, L, M, SC = ("hyperstate/hyperstate.py", "hyperstate/serde.py", "hyperstate/lazy.py", "hyperstate/msgpack_torch.py",
                  "hyperstate/schedule.py")
V, TY, CK, RR, CH = ("hyperstate/schema/versioned.py", "hyperstate/schema/types.py", "hyperstate/schema/schema_checker.py",
                     "hyperstate/schema/rewrite_rule.py", "hyperstate/schema/schema_change.py")
HE, CM, NU = "hyperstate/schema/help.py", "hyperstate/command.py", "hyperstate/schema/namedtuple_utils.py"


def prop(id, title, statement, over, qtext, why, files, mech, note="", na=None, observe="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files, mech=mech,
                  note=note, na=na, observe=observe, technique=technique))


prop("C01", "A crash during step() never loses or corrupts the last completed checkpoint",
     "With a checkpoint key that increases from step to step: if the process dies at any moment during step(), a new StateManager on the same checkpoint directory resumes either exactly "
     "the record (config, state and lazy fields) of the last completed step or exactly that of the interrupted one. It never fails, "
     "never falls back to the initial state and never mixes two records. The resumed run can itself step and be resumed.",
     "crash_points histories inputs",
     "every point before, between and inside the file-system effects of step(); every increasing sequence of checkpoint keys in "
     "[0, 10^12); all state values; temporary directory on the same or another device",
     "The only checkpoint test writes one checkpoint without interruption; no test kills the process.",
     [H, S, L], [("new checkpoint is published before the old one is removed", H + ": StateManager.step"),
                 ("checkpoint is built in a temporary directory and renamed into place", H + ": StateManager.checkpoint, atomic_move")])

prop("C02", "A checkpoint directory appears only complete",
     "Persisting a checkpoint to a target directory either leaves nothing at the target or leaves a directory from which config, state "
     "and every lazy field load with the persisted values, whenever the process dies or a serializer raises. "
     "Unfinished leftovers are never picked up when resuming, also when the temporary directory is on another device.",
     "crash_points fault_sequences inputs",
     "every crash point of checkpoint(target), every exception of user serialization code, same or cross-device rename",
     "Tests call checkpoint() once on one file system and without faults.",
     [H], [("staging in a temporary directory, rename as the last effect", H + ": StateManager.checkpoint"),
           ("copy to a uniquely named sibling before the rename across devices", H + ": atomic_move")])

prop("C03", "Resuming picks the newest checkpoint, else init_path or the initial state",
     "A StateManager on a checkpoint directory resumes from the checkpoint with the numerically largest key, independently of the order in which "
     "the directory is listed and of other files, directories or unfinished leftovers in it. A checkpoint takes precedence over init_path; without one, "
     "init_path supplies config and state (a directory) or only the config (a file); without either, defaults and the initial-state function are used.",
     "histories inputs configurations",
     "all sets of keys in [0, 10^12), all listing orders, all names of unrelated entries with the shapes enumerated in DESIGN.md, with and without init_path",
     "Tests resume from one directory with one checkpoint.",
     [H], [("maximum over the parsed keys of directories with the prefix", H + ": find_latest_checkpoint"),
           ("choice between checkpoint, init_path and initial state", H + ": StateManager._load_config, _load_state")])

prop("C04", "After step() exactly the record of that step is on disk",
     "When step() returns, the checkpoint directory holds one checkpoint, named after the current value of the checkpoint key, and a new StateManager "
     "resumes from it with equal config, state and lazy fields, also if nothing but the key changed; step() repeated without changes keeps that checkpoint. Without a checkpoint directory "
     "step() writes nothing. Repeated step() calls and resumes compose to any length.",
     "histories inputs configurations",
     "all histories of step/resume/modify built from the listed operations, all values, any name of the checkpoint key, state with and without lazy fields",
     "Tests perform at most one step and one resume.",
     [H, S, L], [("checkpoint name from the key, removal of the previous one", H + ": StateManager.step"),
                 ("writer and reader agree on file and blob names", L + ": LazySerializer.serialize, LazyDeserializer.deserialize")])

prop("C05", "Loading what was dumped gives an equal object, for every supported type",
     "For every dataclass type built from int, float, str, bool, Enum, Optional, List, Dict, Tuple, Any-free Unions of containers, nested dataclasses and versioned dataclasses, "
     "loads(type, dumps(value)) equals value, and likewise through a file and with default values omitted. Finite floats only; "
     "the text layer itself is outside.",
     "inputs programs", "all values of every type built by the type constructors up to the nesting depth reported in the evidence",
     "Tests round-trip a handful of concrete objects of a few types.",
     [S, H], [("asdict is inverted by from_dict for every type constructor", S + ": asdict, from_dict")])

prop("C06", "Omitting defaults removes exactly the fields that equal their default",
     "With defaults elided, a field is left out of the output if and only if it has a default and its value equals that default; all other fields are written. "
     "The dumped object is not modified and loading the output gives an equal object.",
     "inputs programs", "all values of fields with and without default or default factory, nested and inside containers",
     "No test dumps with elided defaults.", [H, S], [("comparison with field default or factory", H + ": ElideDefaults.modify_dataclass_attrs")])

prop("C07", "Unknown config fields are rejected, or ignored everywhere if so requested",
     "A key in a config or state file that is not a field of the dataclass it is loaded into makes loading fail with an error naming it, at any nesting depth. "
     "With ignore_extra_fields such keys are ignored at any depth and change nothing else. No value given for an existing field is ever dropped or replaced by its default, and a field "
     "with neither a value nor a default makes loading fail.",
     "inputs programs", "all documents: unknown keys, missing keys and present keys at every nesting position of a dataclass",
     "One test ignores one extra field at the top level.", [S], [("set of remaining keys, defaults only for absent keys", S + ": from_dict")])

prop("C08", "Loaded values conform to the declared field types",
     "Loading returns only objects in which every field has a value of its declared type, after the documented conversions (int to float, integral float or numeric text to int, numeric text to float, "
     "values to enum members); any other value makes loading fail instead of being accepted. Dictionary keys are taken as written. A conversion to int never changes the number.",
     "inputs programs", "every pair of declared type and kind of document value", "Tests load well-typed documents only.",
     [S], [("case analysis on the declared type", S + ": from_dict")])

prop("C09", "Each override sets exactly the named field, with the value typed by the schema",
     "Each override path.to.field=value sets exactly that field and leaves all other fields as the file or the defaults define them, at any depth, including absent or defaulted structs. Text for str fields is taken literally, booleans accept "
     "only the documented spellings, and an override whose path is not a field or that is malformed makes loading fail.",
     "inputs configurations", "all paths through nested and optional dataclasses, all override texts", "One test applies a few fixed overrides.",
     [H], [("path walk in the document, conversion by schema type", H + ": OverridesDeserializer.deserialize")])

prop("C10", "Overrides win over files, defaults, checkpoints and upgrade rules",
     "A field named in the overrides has the overridden value after loading, whatever the config file, its version and upgrade rules, the checkpoint being resumed, or the defaults say. "
     "Of two overrides of the same field the later one wins.",
     "inputs configurations histories", "all combinations of source (none, file of any version, init checkpoint, resumed checkpoint) and overridden field",
     "Tests override fields of an unversioned config only.", [H], [("order of the deserializers", H + ": _typed_load"), ("overrides passed on every load of the config", H + ": StateManager._load_config")])

prop("C11", "Upgrades apply each rule from the file's version to the current one in order",
     "A config of version v is upgraded by applying the rules of v, v+1, ... up to the one before the current version, each exactly once and in list order, to the file's data; schemas are upgraded by the same rules in the same order, one without a version like one of version 0. "
     "Each rule gets the result of the one before it. Rules of other versions are not applied, versions without rules are skipped, the order of the rule table does not matter, the object is built from the upgraded data, and nested versioned objects are upgraded by their own rules from their own version.",
     "inputs programs", "all file versions and current versions, all rule tables up to the size in the evidence, all load entry points", "Tests upgrade along one fixed version chain.",
     [V], [("loop over versions", V + ": Versioned._apply_upgrades, _apply_schema_upgrades"), ("upgrade before the object is built", V + ": VersionedDeserializer.deserialize")])

prop("C12", "Rewrite rules change only their field and lose no data",
     "Renaming moves the value to the new path and removes the old one, deleting removes only the named field, a default change or a mapping changes only the named field, "
     "and every other field keeps its value. Rules tolerate absent fields and absent structs, never overwrite an explicitly given value with a default, and reject a value only if it is disallowed.",
     "inputs programs", "all documents, all field paths, all rules", "Tests apply each rule to a few documents.",
     [RR], [("one apply_to_dict per rule", RR)])

prop("C13", "Versions are written with every config and required on every load",
     "Every dump of a versioned object contains its current version, including versioned objects nested anywhere in it, with and without defaults omitted, in checkpoints and in config_dict(). Loading a versioned config from a text, a file or a checkpoint "
     "that has no version fails instead of guessing; without any file the current version is assumed. Neither in that case nor for data of the current version is any upgrade rule applied, so dumping and loading again changes nothing.",
     "inputs configurations programs", "all nesting positions of versioned objects, all load and dump entry points, all values", "Tests load files with valid versions only.",
     [V, H], [("version stamped by the serializer, required by the deserializer", V + ": VersionedSerializer, VersionedDeserializer")])

prop("C14", "The schema checker reports every change and tells breaking ones from others",
     "Comparing an old and a new schema reports, at its path and with its details, each added, removed or renamed field, each change of type, optionality, enum variants or literal values, and each changed or removed default, at any nesting, and nothing else; identical schemas report nothing. "
     "The verdict is 'compatible' (severity INFO) only if every config dumped under the old schema, with or without defaults, loads under the new one with everything it contains; likewise a type is only a subtype of another if all its values load as the other. "
     "New fields with defaults, int to float, T to Optional[T], and new enum variants or literal values are compatible. A change that an upgrade rule can bridge is a warning and proposes that rule with the right field and values; every other one is an error. The printed report names every change and states the verdict.",
     "inputs programs", "all ordered pairs of the enumerated field types, all edits at all placements listed in the evidence, arbitrary defaults", "Tests compare six fixed pairs of schemas.",
     [CK, CH, TY], [("structural comparison", CK + ": _find_changes"), ("subtype relation", TY + ": is_subtype"), ("severity and proposed rule per change", CH)])

prop("C15", "Schemas written to disk describe the config type completely",
     "The schema computed from a config class lists exactly its fields (inherited ones included) in order, each with its declared type, its default if it has one, enum variants with their values, allowed literal values and the versions of versioned classes. "
     "Written to a file by the schema tool and read again it is the same schema (up to documentation and the representation of defaults as plain data), for every supported field type, default and nesting; checking a class against its own schema file reports no change.",
     "programs inputs", "all config types built from the supported type constructors and all kinds of defaults listed in the evidence, with arbitrary values", "Tests dump one fixed schema.",
     [TY, S, CK], [("types, defaults and versions of every field", TY + ": materialize_type, load_schema"), ("written form", CK + ": _dump_schema")])

prop("C16", "Schema tools write only the files they were asked to, and only on success",
     "Checking a schema, usage errors and dry runs write no file. Dumping or upgrading writes only the named schema or config files (or the default schema file); a failing upgrade leaves the file it fails on as it was. "
     "A schema is upgraded only if the verdict is compatible, and then describes the config class. An upgraded config has the current version, loads as the same config as before, keeps its schedules, and contains all fields with --include-defaults and otherwise only those that differ from their defaults.",
     "inputs fault_sequences configurations", "all commands of the schema command line tools, all options, an error at any point before the write",
     "Tests run the commands successfully once.", [CK, V, TY], [("effects of each command", CK), ("upgrade of config files", V)])

prop("C17", "Lazy fields load once, on first access, and assignments stick",
     "A lazily persisted field reads its file only when first accessed, at most once, and then gives the object deserialized from exactly the persisted data with the manager's config and context. "
     "Assigning a field before or after it was loaded makes later reads and later checkpoints use the assigned value; accessing one field never loads or changes another. This also holds for fields of a class made serializable by blob() and, without a config, for a state read with load().",
     "histories inputs", "all sequences of read, assign, checkpoint and resume on states with several lazy fields", "Tests read one lazy field once.",
     [L, H], [("attribute hook", L + ": Lazy.__getattribute__, __setattr__"), ("registration", L + ": LazyDeserializer")])

prop("C18", "Loading data never executes code from it unless explicitly enabled",
     "No operation that reads configs, checkpoints, schemas or overrides evaluates or imports code named by the data. The only exception, legacy pickled blobs, is read if the environment variable "
     "UNSAFE_DESERIALIZE_PICKLE is set, and otherwise raises an error.",
     "inputs programs", "all inputs, all call paths of the package", "Tests never load malicious data.",
     [L, S, M], [("guard on the environment variable", L + ": Lazy.__getattribute__"), ("no eval, exec, import by name or pickle elsewhere", "hyperstate/")])

prop("C19", "Arrays and tensors survive the blob format",
     "An array or tensor of plain dtype (numbers, booleans, fixed-width text and bytes, dates; not structured, not object) at any depth of the value a lazily persisted object serializes to is decoded with the same dtype, shape and content, writable, and as the same kind of object (array or tensor), "
     "however often it is stored and resumed; other data is unaffected, including text-keyed or incomplete dictionaries that merely look like an encoded array. Data the format has no representation for is rejected, not stored as something else.",
     "inputs", "all arrays, tensors, dtypes, shapes and nesting positions in lists and dictionaries; contents opaque", "No test stores a tensor.",
     [M, L], [("encoding and decoding agree", M + ": encode, decode")])

prop("C20", "Schedules follow the state on every step and survive checkpoints",
     "After the state is first accessed and after every step(), each scheduled config value equals its schedule at the current value of the referenced state attribute, at any nesting including lists, tuples and dictionaries, and this happens before the checkpoint is written. "
     "A checkpoint stores the schedule itself, so a resumed run continues it; unscheduled values never change.",
     "histories inputs configurations", "all positions of scheduled values, all state values, all step/resume histories", "Tests step one schedule once.",
     [H, SC], [("update on first access and on step", H + ": _apply_schedules"), ("schedule text kept and re-emitted", H + ": ScheduleDeserializer, ScheduleSerializer")])

prop("C21", "A schedule passes through its points, stays between them and is constant outside",
     "The value of a schedule at each of its points is the value given for that point; before the first and after the last point it is constant; and between two points it is computed from those two points by the named interpolation. Malformed schedules are rejected.",
     "inputs", "all numbers and positions of points, all interpolators, all x", "Tests evaluate two schedules at a few positions.",
     [SC], [("segment search and interpolation", SC + ": PiecewiseFunction, _parse_schedule")])

prop("C22", "A failed dump does not destroy the file it was to replace",
     "If an object cannot be serialized, dumping it to a file raises and leaves an existing file at that path unchanged and creates no new one.",
     "inputs fault_sequences", "all failures of serialization code, at every field", "Tests dump only serializable objects.",
     [S, H], [("serialization precedes opening the file", S + ": dump")])

prop("C23", "Command line entry points run the program only with a valid config",
     "The command decorator calls the program exactly once, with the config described by the file and the overrides, and never if loading the config fails; the stateful one calls it exactly once with a manager of the given config file or checkpoint, checkpoint directory, key and overrides, which loads and stores what these say. "
     "What the program returns or raises comes out. Every failure (files and overrides that do not fit the config, unknown options, contradicting options) ends in an error, not in success. Help and information options never run the program and change no file.",
     "inputs configurations", "all combinations of command line options, loading failures of any kind", "No test runs the decorator.",
     [CM], [("control flow of the entry point", CM)])

prop("C24", "Dumping and loading neither modify their arguments nor share mutable state",
     "Dumping or checkpointing an object does not change it, and repeating a dump gives the same output. Loading twice gives objects that share no mutable dataclass, list or dict with each other or with the caller's arguments.",
     "inputs histories", "all values of the supported types", "Tests never compare arguments before and after.",
     [S, H], [("fresh containers on both directions", S + ": asdict, from_dict")])

prop("C25", "Help describes every config field",
     "The help of a config class lists every field reached through structs, optional structs and lists of structs exactly once, in the order of declaration and nested below its struct, with its type and (for fields that are no structs) with the default, if it has one other than None, "
     "and the documentation given in the docstring of its class or, failing that, of a base class. Asking for the name of a field first shows every field of that name with its full path, type, default and documentation, and the fields of that struct if it is one; a misspelled name shows the only field with a similar name; "
     "unknown words do not make it fail. Fields of structs in dictionaries are not listed.",
     "programs", "all config classes of the catalogue in the evidence, all their field names", "One test compares one help text.", [HE, TY], [("recursion over the schema", HE + ": print_schema, find_fields"), ("what is shown for a query", HE + ": help"), ("types and documentation of fields", TY)])

prop("C30", "Upgrade rules proposed by the checker make old configs load",
     "After adding the rules the schema checker proposes for a change (repeatedly, if it then proposes further ones) to the upgrade rules of the new config class, every config of the old class, dumped with or without default values, loads as the new one with its content carried over: "
     "kept fields keep their values, renamed and moved ones move, absent ones get the old default, enum values are mapped, removed ones are dropped; values of literals that no longer exist are rejected with an error. The checker then reports nothing above INFO, "
     "except for a type T that became List[T]. This covers changes of fields reached through (optional) structs, not of types inside lists and dicts.",
     "inputs programs", "all edits of the catalogue in the evidence at all placements, all values of the old config", "Tests apply hand-written rules only.",
     [CK, CH, RR, V], [("rule proposed per change", CH + ": proposed_fix"), ("order of rules, rules for enum values", CK + ": SchemaChecker"), ("effect of rules on data and on schemas", RR)])

prop("C26", "The text format reproduces every value exactly",
     "Every supported value written as text by the RON layer and parsed again is bit-for-bit the same value.",
     "inputs", "all strings, floats, nesting", "Tests use simple values.", ["pyproject.toml"], [("external package pyron", "pyproject.toml")],
     na="the text layer is the compiled third-party package pyron, whose source is not in this repository; it is modelled by axioms here")

prop("C27", "Checkpoints survive power loss",
     "After step() returns, the checkpoint survives a power failure of the machine.",
     "crash_points", "power loss at any time", "Tests cannot cut the power.", [H], [("no fsync anywhere", H)],
     na="the code never syncs files and its documentation does not promise durability against power loss; the property does not hold by design and C01 is limited to process crashes")

prop("C28", "Several processes may share one checkpoint directory",
     "Two processes stepping on the same checkpoint directory never corrupt each other's checkpoints.",
     "schedules", "all interleavings of two processes", "Tests are sequential.", [H], [("none", H)],
     na="not promised: rotation deletes whatever checkpoint the process resumed from, so a second writer is out of scope by design")

prop("C29", "Rename suggestions of the schema checker match the intent of the change",
     "The schema checker proposes a rename exactly when the removed and added field mean the same.",
     "programs", "all pairs of schemas", "Intent is not observable.", [CK], [("similarity threshold", CK)],
     na="a numerical string-similarity heuristic with no specification; no static argument decides its quality")
