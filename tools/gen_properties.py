#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
HS="hyperstate/hyperstate.py"; LZ="hyperstate/lazy.py"; SD="hyperstate/serde.py"; SC="hyperstate/schedule.py"
MT="hyperstate/msgpack_torch.py"; VE="hyperstate/schema/versioned.py"; RR="hyperstate/schema/rewrite_rule.py"
CK="hyperstate/schema/schema_checker.py"; CM="hyperstate/command.py"; TY="hyperstate/schema/types.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
STEP=("step: publish the new checkpoint, then retire the previous one",HS+" StateManager.step")
CKPT=("checkpoint: build in a temporary directory, publish with one rename",HS+" StateManager.checkpoint")
AMV=("atomic_move: rename, or copy-then-rename across filesystems",HS+" atomic_move")
FIND=("find_latest_checkpoint: highest 12-digit suffix wins",HS+" find_latest_checkpoint")
LAST=("last checkpoint path","which checkpoint this manager restored from or wrote last",HS+" StateManager._last_checkpoint")
p("C01","Acknowledged checkpoints survive process crashes",
 "Once a call that checkpoints an advanced step counter has returned, a process crash (kill) at any later instant followed by a restart on the same checkpoint directory resumes from that counter value or a later one. The restored config and state are exactly those of one single step call (the last one that returned, or the one in progress at the crash): never a mixture of two, never partially written, never the initial state. This holds whether or not the temporary directory and the checkpoint directory are on the same filesystem, for counters that only increase and have at most 12 digits.",
 ["crash_points","histories","configurations"],"every crash point inside or between step calls, every history of runs, crashes and restarts, every temp/checkpoint filesystem layout, every config/state shape",
 "test_checkpoint takes one checkpoint and restores it once in an undisturbed process; no test interrupts anything, restarts twice, or crosses filesystems.",
 [HS,SD,LZ],[STEP,CKPT,AMV,FIND],[LAST],["directory contents after each file operation","restored config and state"])
p("C02","Resuming is transparent: interrupted and uninterrupted runs agree",
 "A deterministic training program that keeps everything it depends on in its managed config and state, killed any number of times at arbitrary points and restarted with the same arguments, passes through the same states and the same hyperparameter values at every step as if it had never been interrupted. This includes in-place updates of restored arrays and containers, scheduled values, overrides, the deserialization context, and programs that repeat the step call for a counter value that is already checkpointed.",
 ["crash_points","histories","programs"],"every training program of the described kind and every sequence of kills and restarts",
 "No test continues training after a restore; the one restore test only compares values.",
 [HS,LZ,MT,SC,SD],[STEP,("state property: load, attach context, apply schedules",HS+" StateManager.state"),("array decoding",MT+" decode"),("schedules survive in the checkpointed config",HS+" ScheduleSerializer")],[LAST],["state and config at each step of the program"])
p("C03","Restored values are identical to the saved values",
 "Whatever values the config and state hold when a checkpoint is taken (ints, floats, bools, strings, enums, literals, optionals, lists, tuples, dicts, nested dataclasses and unions of dataclasses, plus serializable fields of the state holding numpy arrays of numeric, boolean, string or datetime elements, numbers, strings, lists and dicts), restoring it yields equal values of the same types, through any number of save/restore generations. Taking a checkpoint does not alter the live config or state.",
 ["inputs","histories","configurations"],"every supported config/state shape, every value of the supported kinds, every number of save/crash/restore generations",
 "The only round trip tested is one fixed value per field kind; no special floats, big ints, quotes, enum with differing name and value, non-contiguous or non-native arrays.",
 [HS,SD,LZ,MT],[("asdict/from_dict",SD),("blob encode/decode",MT),("blob naming",LZ+" LazySerializer, LazyDeserializer"),CKPT],[],["restored config and state, value and type, bit for bit"])
p("C04","I/O failures are reported and never damage existing checkpoints",
 "If a file operation or a field's own serialization fails while a checkpoint is being taken (disk full, I/O error, permission, too many open files, interrupt), the call either still completes the checkpoint or raises; it never reports success without it. Whatever fails and however often, a restart afterwards restores, complete and unchanged, the last acknowledged checkpoint or a complete newer one from a call that failed after publishing it; a partial checkpoint is never what gets restored.",
 ["fault_sequences","histories","configurations"],"every file operation of every step/checkpoint call as the failing one, every errno it can fail with, transient and persistent, every filesystem layout",
 "No test makes any file operation fail.",
 [HS,SD],[CKPT,AMV,STEP],[LAST],["exceptions raised by step/checkpoint","what a restart restores"])
p("C05","Checkpointing recovers as soon as faults stop",
 "After any sequence of failed, interrupted or crashed step calls, and also if the previous checkpoint was removed from outside, the program can go on: once faults stop at most one further step call may raise (to report leftover trouble), every later one succeeds, and its checkpoint is what a restart restores. A failed attempt leaves no partial copy and no temporary files behind unless the removal itself was made to fail.",
 ["fault_sequences","histories"],"every sequence of transient faults followed by a fault-free period",
 "Needs a fault followed by recovery in the same process or the next; no test has either.",
 [HS],[STEP,AMV,CKPT],[LAST],["outcome of the step calls after the last fault","directory listing of checkpoint and temp directories"])
p("C06","Concurrent readers see complete checkpoints or an explicit error",
 "Another process that opens the checkpoint directory at any time while a trainer is checkpointing obtains either the complete config and state of one single step (never of an older step than the newest one acknowledged before the reader started), or an explicit file error because that checkpoint was just retired, or a fresh initial state if nothing had been acknowledged yet. It never obtains a mixture or a partial state, and reading never changes or breaks the trainer's checkpoints.",
 ["schedules","configurations"],"every interleaving of the reader's and the trainer's file operations, every filesystem layout",
 "Tests run one manager at a time.",
 [HS,LZ],[AMV,STEP,FIND],[],["reader's restored values or exception"])
p("C07","Restart picks the highest-numbered automatic checkpoint",
 "Among the automatic checkpoints in the checkpoint directory a restart always restores the one with the highest counter value. Directory listing order, file times, clock jumps, leftovers of interrupted copies, unrelated files or directories (whatever digits their names contain), and explicit checkpoints stored next to it do not change that choice.",
 ["configurations","histories","schedules"],"every directory listing order, timestamp assignment, set of bystander entries and magnitude of counter values up to 12 digits",
 "Tests have exactly one checkpoint and no bystanders.",
 [HS],[FIND,("checkpoint_dir setter filters candidates",HS+" StateManager.checkpoint_dir")],[LAST],["restored counter value"])
p("C08","Checkpointing touches nothing but its own latest checkpoint",
 "After each successful step call exactly one automatic checkpoint of that run is present (besides leftovers of earlier crashes or faults), and nothing is left in the temporary directory. Every other file (the user's files in and around the checkpoint directory, explicit checkpoints, the config file, the checkpoint a run was resumed from) keeps its name and content, and a manager without checkpoint directory writes nothing.",
 ["histories","configurations"],"every history of steps, repeated steps, explicit checkpoints, resumes and restarts, every set of bystander files",
 "No test looks at the directory after a second step or at other files.",
 [HS],[STEP,CKPT,AMV],[LAST],["full file tree before and after each call"])
p("C09","Damaged checkpoints are reported, never silently replaced",
 "If files of the newest checkpoint are truncated, emptied or missing (as after a power failure or an interrupted copy), or a read fails, restoring from it or first accessing the affected field raises an error: no field silently becomes null, a default or the initial value, and the program does not silently start over or fall back. Retrying the access raises again rather than returning a wrong value, and a step call that advances the counter of such a state raises without destroying the damaged checkpoint.",
 ["fault_sequences","inputs"],"every file of the checkpoint, every truncation point, every failing read",
 "Tests only restore intact checkpoints.",
 [HS,LZ,SD,MT],[("parse and decode errors propagate",SD+" load, from_dict"),("lazy field load",LZ+" Lazy.__getattribute__")],[],["exception or value for every field of the restored state"])
p("C10","Lazily restored fields load once, on first access, or not at all",
 "In a state restored from a checkpoint, the data of a serializable field is read only when that field is first accessed, at most once successfully, with the current config, the state and the deserialization context that were set; missing data of fields that are never accessed does no harm. A first access that fails leaves the field unloaded so that a later access (after the fault is gone) returns the correct value. Fields in the legacy pickled formats are refused unless explicitly enabled by environment variable.",
 ["histories","fault_sequences"],"every order of field accesses, steps, faults and restarts",
 "One test accesses one lazy field once without faults.",
 [LZ,HS],[("Lazy.__getattribute__",LZ),("LazyDeserializer",LZ)],[("unloaded lazy fields","fields still on disk",LZ)],["file reads per field","values and exceptions on access"])
p("C11","Scheduled hyperparameters follow the step counter",
 "Every int or float config field at any dataclass nesting depth that is set to a schedule has, whenever the state has been loaded and after every step call, exactly the scheduled value for the current counter: interpolated between the surrounding points (linear, cosine or step), clamped before the first and after the last point. This holds for any trajectory of the counter (jumps included) and across checkpoints, crashes and restarts, which keep the schedule itself and not a frozen number; fields without schedule never change.",
 ["histories","inputs","crash_points"],"every schedule of the grammar with increasing points, every nesting, every counter trajectory, every crash/restart history",
 "One test checks one schedule at one counter value, nested one level deep.",
 [SC,HS],[("piecewise evaluation",SC+" PiecewiseFunction.get_value"),("collecting schedules",HS+" ScheduleDeserializer"),("applying schedules",HS+" _apply_schedules"),("saving schedules",HS+" ScheduleSerializer")],[("schedules","tree of schedules parallel to the config",HS+" StateManager._schedules")],["config values after state access and each step"])
p("C12","Overrides win over every other source, at every restart",
 "A field override given when a run is started or restarted determines that field's value whatever the config file, the checkpoint, a schedule in either, the defaults or a version upgrade of the stored config say; config fields that are not overridden keep exactly the value of the source, and an override that names no field or no value of its type is rejected. Values set by an override are part of the config that later checkpoints save, so a restart without the override still sees them.",
 ["histories","configurations","inputs"],"every sequence of restarts with changing override sets, every source of config, every stored config version, crashes at any point",
 "One test applies overrides to defaults without file, checkpoint, version or restart.",
 [HS,VE],[("OverridesDeserializer",HS),("order of deserializers",HS+" _typed_load")],[],["config after each restart"])
p("C13","Version upgrades apply exactly once across restarts",
 "A checkpoint or config written by an older version of a versioned config or state class and loaded by a newer version yields exactly what applying each intermediate version's upgrade rules once, in order, to the stored values yields. Crashes and restarts at any point before, during or after the upgraded run's first checkpoint never cause a rule to be skipped or applied twice, and checkpoints of the current version load unchanged.",
 ["histories","crash_points","programs"],"every chain of class versions and rules, every pair of stored/loading version, every crash/restart history between deployments",
 "Tests upgrade single strings once; no test re-saves, restarts or crashes around an upgrade.",
 [VE,RR,HS],[("_apply_upgrades",VE),("VersionedSerializer records the current version",VE),("rewrite rules",RR)],[],["restored config/state after each deployment"])
p("C14","In-place config upgrade is all-or-nothing and preserves meaning",
 "Upgrading config files in place leaves every file, whatever crash or I/O failure happens at whatever point, with either its complete old or its complete new content; a file whose upgrade fails is unchanged, the failure is reported, and no partial files remain after a reported failure. The upgraded file loads to the same config (schedules included) as the original did, upgrading again changes nothing, and a dry run writes nothing.",
 ["crash_points","fault_sequences","inputs"],"every crash point and failing file operation during the upgrade of every set of config files",
 "The command is not tested at all.",
 [CK,HS,VE],[("_upgrade_config",CK)],[],["file contents after crash/failure","loaded config before and after"])
p("C15","Independent runs do not interfere",
 "Any number of managers using different checkpoint directories (same process or different processes, same class or different classes, sharing the temporary directory), however their operations interleave and whichever of them crash, each behave exactly as if they ran alone: same states, same configs, same checkpoints.",
 ["schedules","crash_points","configurations"],"every interleaving of the file operations of several runs and every subset of them crashing",
 "Tests run one manager at a time.",
 [HS,LZ],[("per-instance state",HS+" StateManager.__init__"),("unique temporary names",HS+" StateManager.checkpoint")],[],["per-run states, configs and checkpoint directories"])
p("C16","Duplicate trainers never lose or corrupt the newest checkpoint",
 "If two trainers write to the same checkpoint directory at once (for example a job and its not yet dead predecessor), then whatever the interleaving, after the first acknowledged checkpoint there is at every instant a complete restorable checkpoint whose counter is at least the highest counter acknowledged to either of them. Each step call either succeeds or raises, and what is restored is always the complete state of one single step call of one of them.",
 ["schedules","crash_points"],"every interleaving of two trainers' file operations, with crashes, in every filesystem layout",
 "Tests run one manager at a time.",
 [HS],[AMV,STEP,FIND],[LAST],["what a fresh restart restores at each instant"])
p("C17","Where a run resumes from is determined by fixed precedence",
 "A run given a checkpoint directory that contains an automatic checkpoint resumes from it and ignores the initial config file or checkpoint it was also given; otherwise it resumes config and state from the given checkpoint, otherwise it takes config from the given file, otherwise from the defaults, with a fresh initial state. Through the API or the command line, across crashes and restarts with the same arguments, this never discards progress, and the given file or checkpoint is never modified.",
 ["configurations","histories","crash_points"],"every combination of sources, API or command line, every crash/restart history with fixed arguments",
 "One test restarts once with both sources; the command-line entry points are untested.",
 [HS,CM],[("_load_config/_load_state",HS),("stateful_command",CM)],[LAST],["config and state right after start"])
p("C18","Explicit checkpoints are all-or-nothing and never overwrite",
 "Saving a checkpoint to an explicitly named directory creates the complete checkpoint under that name when the call returns; if it raises, or crashes part-way, there is either nothing or the complete checkpoint under that name, even across filesystems. If a non-empty directory of that name already exists it is left as it was and the call raises. It does not disturb automatic checkpointing, and a new run started from it sees exactly the saved config and state.",
 ["crash_points","fault_sequences","histories"],"every crash point and failing operation of the call, existing targets, every history of automatic and explicit checkpoints",
 "Explicit checkpoints are not tested.",
 [HS],[CKPT,AMV],[],["target directory after crash/failure","run started from the target"])
p("C19","Schema files are only replaced when compatible, all-or-nothing",
 "Updating a stored schema file replaces it only if the class is compatible with it; otherwise, and whenever the update crashes or fails at any point, the file keeps its complete old content (or has the complete new one), no partial files remain after a reported failure, and checking a schema never writes. After a successful update the class checks as compatible with no changes.",
 ["crash_points","fault_sequences","programs"],"every crash point and failing operation, every pair of compatible/incompatible class versions",
 "Schema files are never written in tests.",
 [CK,TY],[("_upgrade_schema, _dump_schema",CK)],[],["schema file content","report of the check afterwards"])
p("C20","Lazy fields are safe to first-access from several threads",
 "If several threads access lazily restored fields of one restored state at the same time, every access returns the correctly restored value, all threads get the same object for the same field, and no access fails because another one is in progress.",
 ["schedules"],"every interleaving of the threads' steps inside the library",
 "Tests are single-threaded.",
 [LZ],[("Lazy.__getattribute__",LZ)],[("unloaded lazy fields","fields still on disk",LZ)],["values and exceptions per thread"])
p('C21','Hand edits of a checkpoint take effect exactly',
 'If the config or state text of the checkpoint or config file a run starts from is edited between runs (values, schedules added or removed, fields that have defaults left out; any valid layout, field order, comments or number notation), the next start has exactly the edited values, every other field keeps its saved value, including separately stored data, and later checkpoints keep the edits. An edit that does not fit (a value of another type, a required value removed) is reported with an error at every start: nothing is silently replaced by a default, no fresh start happens and the files are left as they are.',
 ['histories', 'inputs', 'crash_points'],'every sequence of edits, restarts, steps and kills, every notation of every value, automatic and explicit checkpoints and config files',
 'No test edits a checkpoint; config text in tests is a handful of fixed strings loaded once.',
 ['hyperstate/hyperstate.py', 'hyperstate/serde.py', 'hyperstate/lazy.py', 'hyperstate/schedule.py'],[('typed deserialization of config and state text', 'hyperstate/serde.py from_dict'), ('defaults of absent fields', 'hyperstate/serde.py _try_create_defaults')],[],['config and state after each start', 'files after refused starts', 'the checkpoints written next'])
p('C22','Unknown fields are refused, or ignored on request',
 'A checkpoint or config file holding fields, at any nesting level, that the class does not know (say, written by a newer version of the program) is refused with an error at every start, with no fresh start and its files left as they are. If the run asks for extra fields to be ignored it starts, every known field has exactly its stored value, and the checkpoints it writes load again with and without that request.',
 ['histories', 'inputs', 'crash_points'],'every sequence of restarts with and without the request, every place of the unknown field, kills at any point, automatic and explicit checkpoints and config files',
 "No test loads a file with unknown fields in the middle of a run's history, nested, or with the request set.",
 ['hyperstate/hyperstate.py', 'hyperstate/serde.py'],[('unknown field check', 'hyperstate/serde.py from_dict')],[('ignore_extra_fields', 'whether unknown fields are ignored', 'hyperstate/hyperstate.py StateManager.ignore_extra_fields')],['config and state after each start', 'files after refused starts'])
p("C23","The schema check tells harmless from breaking class edits",
 "Through any sequence of edits, schema updates and deployments of a config class: the check calls an edited class compatible with the stored schema exactly when no stored config can be affected. Compatible are new fields (or sections) with a default, a default for a required field, int widened to float, T to Optional[T] and a Literal to its base type, added literal values and enum variants, renamed enum variants with their value kept, and changes of field order and class names; after deploying a compatible class all config files and checkpoints of earlier deployments load with unchanged meaning, through kills and restarts. Incompatible are new fields without a default, removed or renamed fields, changed or removed defaults, types, literals or enums that exclude an old value, and changed enum values. If an incompatible class gets no error, adding the proposed rules (as objects or as printed) under the old version and raising the version makes every stored config load with unchanged meaning or be refused for a value that is no longer allowed, provided that the check identifies the same renamed fields as the developer.",
 ["histories","programs","crash_points"],"every sequence of edits and deployments, every stored config file and checkpoint of any earlier deployment, kills and I/O errors in the schema tool and in training runs",
 "Tests compare six hand-written pairs of versions; none follows files and checkpoints through several deployments.",
 [CK,"hyperstate/schema/schema_change.py",TY,RR],[("SchemaChecker",CK),("proposed_fix","hyperstate/schema/schema_change.py")],[],["check report","schema file","configs loaded from files and checkpoints of earlier deployments"])
p("N02","Field help lists the fields it is asked for",
 "The help output names every field with its type, default and documentation, and a query lists the exact match first, then the most similar names.",
 ["programs","inputs"],"every config class and query",
 "One fixed class and no query is tested.",
 ["hyperstate/schema/help.py"],[("help, find_fields","hyperstate/schema/help.py")],[],["printed help"])
p("N03","Override and config text is parsed as written",
 "An override string or config text is either parsed to the value it spells for the field's type or rejected with an error naming the field; unknown fields are rejected unless explicitly ignored.",
 ["inputs","programs"],"every override string and config text",
 "A handful of overrides and texts are tested.",
 [HS,SD],[("OverridesDeserializer",HS),("from_dict",SD)],[],["parsed value or error"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
