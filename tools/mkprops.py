#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m} for n, m in state],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "A message is delivered exactly when enabled, and to the right outputs",
  "For every logger and every level Trace..Critical, a logging call hands exactly one event to each of the logger's effective outputs, in list order, if the level is enabled on that logger, and otherwise hands nothing to anybody and runs no code of its arguments, fields or context. A logger's effective level is its own level if set, else that of its nearest ancestor with one; its effective outputs are its own list if non-empty, else that of its nearest ancestor with one; the XxxEnabled queries, LevelEnabled and Level() agree with that rule after any history of level and output changes. Every delivered event carries the name and level of the call, whichever ancestor's outputs it goes through. Until a configuration is set, the root logger has the level All and writes to standard output.",
  ["histories", "configurations", "inputs"],
  "all histories (to a bound) of getting loggers, SetLevel, SetOutputs over hierarchies up to 4 deep with '/' and '.' separators, then every logging method at every level on every logger",
  "the tests log on two directly configured loggers with the level fully open and one inherited case; they never vary levels between child and parent, never change them afterwards, and never check that nothing is delivered",
  ["internal/logger.go", "internal/logger_factory.go", "api/logger_level.go"],
  [("level lookup and dispatch to own or inherited outputs", "internal/logger.go Level, LevelEnabled, write"), ("parent links", "internal/logger_factory.go getParent")],
  [("logger level/outputs", "own settings of a logger; unset means inherit")], ["custom Output.Send", "Logger.Level/XxxEnabled"])

p("C02", "Logger identity, parentage and configuration do not depend on lookup order",
  "GetLogger returns the same logger for the same name every time, and \"\" and \"root\" both name the root. A logger's parent is the logger named by the longest proper prefix ending before a '/' or '.' separator, or the root when there is none. A configured logger gets exactly its configured level and outputs no matter in which order it, its ancestors and its descendants were first looked up, and whether that was before or after the configuration was set.",
  ["histories", "configurations"],
  "all orders of first lookup of up to 5 names from a set of related and unrelated names (mixed separators, empty segments, shared prefixes), with configuration of any subset, set before, between or after the lookups",
  "the tests look up a parent before its child once, in one fixed configuration; the order space is never explored",
  ["internal/logger_factory.go", "internal/logger_manager.go"],
  [("lookup, creation of ancestors, applying configuration", "internal/logger_factory.go GetLogger, getParent, createLogger, notify")],
  [("registry of loggers", "name -> logger")], ["GetLogger results", "events received by outputs"])

p("C03", "Concurrent logging keeps every record whole, unique and in order",
  "When several goroutines log through loggers that share outputs (memory, console, size- or time-rolling file; synchronous or asynchronous), every record of an enabled call appears in each output exactly once, contiguous and unmodified. Records of one goroutine appear in the order it logged them. This holds for every interleaving, including when a file rollover happens between or during the calls.",
  ["schedules"],
  "all interleavings within a preemption bound of 2-3 goroutines logging 1-3 records each to shared outputs of every built-in kind, with and without rollovers",
  "the tests never log from two goroutines",
  ["internal/logger.go", "internal/output_base.go", "internal/output_memory.go", "internal/output_rollingwriter.go", "internal/format_text.go"],
  [("one write per record", "internal/output_base.go Send, flush"), ("rollover mutual exclusion", "internal/output_rollingwriter.go Write")],
  [("shared writers and buffers", "state touched by concurrent Send calls")], ["bytes written to the output"])

p("C04", "Closing flushes everything accepted and never crashes or hangs",
  "When Close on the manager (or the library's SIGINT/SIGTERM handling of it) completes, every event whose logging call returned before Close was called has been written to its output. Concurrent or repeated Close calls and logging calls overlapping or following Close never panic and never block forever. A record is never written twice because of Close.",
  ["schedules"],
  "all interleavings within a preemption bound of loggers, closers and signal delivery over asynchronous outputs with queues of 1 to a few entries (including full queues) and any batch size",
  "the one async test sleeps past the flush period and closes an already drained output from the same goroutine",
  ["internal/output_base.go", "internal/logger_manager.go", "internal/log4g.go"],
  [("queue, terminator and wait group of the async output", "internal/output_base.go Send, Close, loop"), ("manager close and signal handler", "internal/logger_manager.go Close; internal/log4g.go init")],
  [("async queue and closed flag", "events accepted but not yet written")], ["writer content when Close returns", "panics, deadlocks"])

p("C05", "An asynchronous output writes the same stream as a synchronous one",
  "For every queue size, batch size, threshold and placement of flush ticks, the bytes an asynchronous output finally writes equal the concatenation, in send order, of the records a synchronous output with the same format and threshold writes for the same calls; what a record says is fixed when the logging call returns, even if the caller changes the arguments afterwards. At every moment what has been written is a prefix of that stream ending at a record boundary (one batch is handed to the writer in one write). Without Close, every accepted record is written at the latest by the first periodic flush (every 5 s) after the output took it from its queue, or as soon as batch_num records have accumulated. A flush without records has no effect: as long as every record is flushed by itself in the period it was logged in, the files of a rolling output, backups included, are those of a synchronous one.",
  ["inputs", "schedules", "configurations"],
  "all sequences up to a bound of records (below and above the threshold, with mutable arguments) and flush ticks, for queue sizes 1-3 and default, batch sizes 1-4 and default, under all interleavings within a preemption bound",
  "the one async test sends two events with queue 1 and batch 1",
  ["internal/output_base.go"],
  [("batching, ticker flush", "internal/output_base.go loop, flush"), ("queueing", "internal/output_base.go Send")],
  [("batch buffer and counter", "records formatted but not yet flushed")], ["bytes received by the underlying writer"])

p("C06", "The public API is safe for concurrent use",
  "Any concurrent mix of looking up loggers, logging, querying and setting levels, setting outputs, loading a configuration and closing the manager runs without data race, deadlock or panic. Every call returns. An event logged while outputs are being replaced goes to the complete old list or the complete new list, never to a mixture.",
  ["schedules"],
  "all interleavings within a preemption bound of 2-3 goroutines each performing 1-2 public operations chosen from every pair of operation kinds, on loggers that share ancestors and outputs",
  "no test uses two goroutines, and a data race or lock-order cycle only shows under particular schedules",
  ["internal/logger.go", "internal/logger_factory.go", "internal/logger_manager.go", "internal/output_base.go"],
  [("factory and manager locks", "internal/logger_factory.go, internal/logger_manager.go"), ("logger settings read by logging calls", "internal/logger.go")],
  [("logger settings, registry, configuration", "shared mutable state")], ["race reports", "deadlock detection", "events received"])

p("C07", "After a configuration load, the system behaves as if started with it",
  "Once SetConfig, LoadConfig or LoadConfigFile returns without error, every logger adjusted only through configuration, whether obtained before, during or after the load, has the level, outputs, formats and thresholds that the new configuration alone prescribes. Nothing of an earlier configuration remains: loggers no longer mentioned inherit again, and an output or format whose definition changed under the same name takes its new definition. Outputs whose definition, including that of their format, did not change keep working as the same instance.",
  ["histories", "configurations", "schedules"],
  "all sequences up to 3 of configurations from a family covering added, removed and redefined loggers, outputs and formats, with lookups and logging interleaved at every position; plus interleavings of a load with lookups and logging",
  "the tests set one configuration once; nothing compares a reloaded system with a fresh one",
  ["internal/logger_manager.go", "internal/logger_factory.go"],
  [("instance caches", "internal/logger_manager.go GetLoggerOutputs"), ("pushing a configuration to loggers", "internal/logger_factory.go notify")],
  [("cached formats and outputs by name", "instances built from earlier definitions")], ["Level()", "records written to each output"])

p("C08", "Invalid configuration is rejected and changes nothing",
  "SetConfig, LoadConfig and LoadConfigFile return an error, and never panic, for a duplicate format, output or logger name, an output naming an unknown format, a logger naming an unknown output, text that is not well-formed, an unsupported or missing file type, and an unreadable file; after an error the previous configuration is still fully in force, also when the refused one is the same object changed in place. Every valid configuration is accepted. YAML, JSON and programmatic forms of one configuration have the same effect.",
  ["inputs", "configurations", "histories"],
  "all small configurations (up to 2 formats, 2 outputs, 2-3 loggers with all name collisions and references), every truncation of valid YAML and JSON documents, all file extensions from a list, and all sequences of three in-place edits of one object, each loaded",
  "the tests load one valid YAML document and ignore the returned error",
  ["internal/logger_manager.go", "api/logger_mange.go"],
  [("validation", "internal/logger_manager.go validateConfig"), ("parsing", "internal/logger_manager.go LoadConfig, LoadConfigFile")],
  [("current configuration", "what loggers are configured from")], ["returned errors", "levels and outputs of loggers afterwards"])

p("C09", "Configured output parameters take effect with their documented meaning",
  "The size of a size-rolling output is read as bytes, or with suffix K, M or G as 1024, 1024^2 or 1024^3 bytes; the backups value (1 to 20) bounds the backups kept, and file_perm, back_perm and dir_perm are the permission bits of the current file, of backups and of directories created for them. Missing, non-numeric, zero or negative values fall back to the defaults (10M, 5 backups, 0600, 0500, 0760, queue 1000, batch 20), and values over the maximum are clamped (20 backups, queue 100000, batch 500). name_mode prefix or postfix decides whether a backup is called N.file or file.N, and threshold names are case-insensitive with unknown names meaning no threshold.",
  ["configurations", "inputs"],
  "every value from an enumerated list per parameter (all 512 permission values, sizes with each suffix around boundaries, counts around each clamp), each through the public configuration",
  "no test goes through the configuration keys of a rolling or asynchronous output except one that does not check their effect",
  ["internal/output_rolling.go", "internal/output_base.go", "internal/output_console.go"],
  [("parameter parsing", "internal/output_rolling.go getMaxSize, getMaxRolls, getFileMode; internal/output_base.go GetQueueSize, GetBatchNum, GetThresholdLvl")],
  [], ["files, their sizes, names and modes", "flush points of async outputs"])

p("C10", "Size rolling never loses, duplicates or reorders log content",
  "At every point, the backups in ascending number order followed by the current file contain exactly the content logged to the output (plus what the files held before), in order, except for whole oldest backups removed by retention. A record (for an asynchronous output: one flushed batch) is appended to a file only while that file is smaller than the size limit, also across restarts of the process, and a file becomes a backup only after it has reached the limit. A new backup's number is larger than every existing backup's number and no existing file is ever overwritten.",
  ["histories", "configurations"],
  "all histories up to a bound of records of several sizes and process restarts, for limits around the record sizes, both name modes, and initial directories with existing backups, gaps, look-alike names and many files",
  "the tests write at most two records per case and only look at which file names exist, never at their content",
  ["internal/output_rollingwriter.go", "internal/output_fsutil.go"],
  [("rollover", "internal/output_rollingwriter.go Write, roll, needsToRoll"), ("numbering", "internal/output_rollingwriter.go getNewHistoryRollFileName, getSortedLogHistory")],
  [("current file and size", "where the next record goes"), ("history", "backups found in the directory")], ["directory content after every step"])

p("C11", "Retention keeps the newest backups and touches nothing else",
  "After every rollover at most the configured number of backups remains, and those removed are always the oldest ones (lowest number, or earliest period for time rolling). Files that are not backups of this output, including names that only look like a backup's (non-numeric, signed, zero-padded), other outputs' files and directories, are never renamed, changed or removed.",
  ["histories", "configurations"],
  "all histories up to a bound of rollovers and restarts, backups limits 1-3, both rolling kinds and name modes, and initial directories with more backups than allowed, non-numeric or partially matching names, subdirectories, and over 64 entries",
  "the tests cover a handful of directories with at most two foreign names and one removal, all with fewer than 10 entries",
  ["internal/output_rollingwriter.go", "internal/output_fsutil.go"],
  [("selection and removal of old rolls", "internal/output_rollingwriter.go getSortedLogHistory, deleteOldRolls"), ("directory listing", "internal/output_fsutil.go getDirFilePaths")],
  [("history", "sorted backups")], ["directory content after every step"])

p("C12", "Time rolling puts every record into the file of its period",
  "For a synchronous output, a clock that never goes back and a pattern that names each period uniquely, every backup named for a period contains exactly the records logged in that period, whole and in order, and the current file exactly those of the latest period with records, also when the process restarts within or between periods and when periods without records pass. Backups removed by retention are the earliest periods.",
  ["histories", "configurations"],
  "all histories up to a bound of records, clock advances (none, within a period, next period, several periods) and restarts, for second, minute, hour, day, month and year patterns, both name modes and backups limits 1-3",
  "the time-rolling writer has a test-case constructor but not one test case",
  ["internal/output_rollingwriter.go"],
  [("period detection and naming", "internal/output_rollingwriter.go rollingFileWriterTime")],
  [("name of the current period", "what the current file will be called when rolled")], ["directory content after every step"])

p("C13", "A rolled file is removed only once its content is safely archived",
  "With archive set to zip or gzip, every backup that retention removes is first stored complete, under a name derived from its own, in a readable archive of that kind, so that archives, backups and current file together always contain everything ever logged. Existing archives are never lost or damaged. If archiving fails, the backup stays and is archived at a later rollover.",
  ["histories", "configurations", "fault_sequences"],
  "all histories up to a bound of rollovers and restarts for both archive kinds, name modes, rolling kinds and backups limits, and every single (thorough: pair of) failing file-system operation in them",
  "the two archive test cases check that a file name exists, construct the writer by hand instead of through the configuration, and never read the archive or let an operation fail",
  ["internal/output_rolling.go", "internal/output_rollingwriter.go", "internal/archive/gzip/gzip.go", "internal/archive/zip/zip.go", "internal/archive/tar/tar.go"],
  [("archive before removal", "internal/output_rollingwriter.go deleteOldRolls, archiveExplodedLogs")],
  [("archives", "content that retention moved out of the backups")], ["decompressed archives and directory content after every step"])

p("C14", "A transient file-system failure costs at most the records hit by it",
  "If file-system operations of a synchronous rolling output fail temporarily (opening, writing, closing, listing, renaming, permission change, removal, directory creation), nothing already written is lost or corrupted, except for retention. Only records whose own logging call met a failure may be missing or incomplete; once operations succeed again, every following record is written and rollover and retention resume, without a restart. A backup that cannot be archived or removed does not keep others that are due. The application never sees a panic.",
  ["fault_sequences", "histories"],
  "every single failing operation (thorough: every pair, and outages of several consecutive operations) in all histories up to a bound of records, rollovers and restarts",
  "no test makes any operation fail",
  ["internal/output_rollingwriter.go", "internal/output_fsutil.go"],
  [("error paths of open, roll and write", "internal/output_rollingwriter.go Write, roll, createFileAndFolderIfNeeded, deleteOldRolls")],
  [("current file handle and size", "must stay usable after an error")], ["directory content after every step"])

p("C15", "A crash at any point loses no record that was already logged",
  "If the process dies at any point during logging to a synchronous rolling output, every record whose logging call had returned is afterwards found exactly in order in the current file, a backup or an archive, except for oldest backups legitimately removed by retention. After a restart on the files left behind, logging, rollover, retention and archiving continue to work and still lose nothing.",
  ["crash_points", "histories"],
  "every operation boundary (before, after, and within each write) of all histories up to a bound of records and rollovers, with and without archiving, followed by restart and more records; the file system itself survives (process crash, not power loss)",
  "no test stops in the middle of an operation or restarts on existing files with content",
  ["internal/output_rollingwriter.go"],
  [("order of rename, archive and remove", "internal/output_rollingwriter.go roll, deleteOldRolls, archiveExplodedLogs"), ("reopening existing files", "internal/output_rollingwriter.go createFileAndFolderIfNeeded")],
  [("files on disk", "all that survives")], ["directory content after crash and after restart"])

p("C16", "A layout renders every verb as documented and all other text verbatim",
  "For every layout with at least one verb (letters and digits), the record is the layout text with each %{verb} replaced by the verb's documented value for that event, each %{verb:spec} (a spec without braces, backslashes or line breaks) by that value formatted with the Go format %spec (for time, in that time layout), and every other character unchanged, whatever the values contain. A verb that is not built in renders the value of that context field. Formatting an event does not affect any other or later record.",
  ["inputs"],
  "all layouts up to a bound of parts drawn from every built-in verb, field verbs, several format specs and awkward static text (percent signs, braces, line breaks, non-ASCII), times events with awkward messages and values",
  "the tests format five layouts with one benign event each",
  ["internal/format_parser.go", "internal/format_text.go"],
  [("layout parser", "internal/format_parser.go Parser"), ("rendering", "internal/format_parser.go Format, *FormatFunc")],
  [], ["bytes returned by the formatter"])

p("C17", "Message text and fields reach the output exactly as given at the call",
  "The message is fmt.Sprintf(format, args) for the formatted methods when arguments and a non-empty format are given, the format text itself unchanged when there are no arguments, and fmt.Sprint(args) for the plain methods. Fields given with WithFields, or values of a context given with WithCtx, are visible to the record of every call through that writer, also when the logger inherits its outputs from an ancestor, the last of equal keys winning. They are visible to no record logged otherwise. A call changes nothing it is given, and an event that an output of the application keeps says the same after later calls.",
  ["inputs", "histories", "configurations"],
  "all combinations of the 13 logging methods, argument lists from a list of awkward values, receivers (logger, WithFields, WithCtx, several writers used alternately) and inheritance depths 0-3",
  "the tests pass fields once, on a logger with its own outputs, and never check that they do not leak",
  ["internal/logger.go", "api/logger_api.go"],
  [("message building", "api/logger_api.go Event.Message"), ("context of a writer", "internal/logger.go WithFields, WithCtx, write")],
  [("writer context", "fields of this writer only")], ["records written"])

p("C18", "Caller information names the line that made the logging call",
  "The file, line, package and function verbs render the location of the application statement that called the logging method, for each of the 13 logging methods, on the logger and on writers from WithFields and WithCtx, at every inheritance depth, for synchronous and asynchronous outputs and for every combination of outputs with and without caller verbs. After SetCallerSkip(n) they render the location n frames further up.",
  ["inputs", "configurations"],
  "all combinations of methods, receivers, inheritance depths 0-3, output kinds and verb combinations, caller skips 0-4, and kinds of calling function (plain, method, closure, generic; calls made by a defer or go statement directly on a logger method are left out, they have no calling line)",
  "the tests check one method, on the logger itself, with a single synchronous output, three verbs",
  ["internal/logger.go", "internal/logger_callerinfo.go", "internal/format_parser.go"],
  [("stack depth accounting", "internal/logger.go Printf, write; internal/logger_callerinfo.go getCallerInfo"), ("deciding whether caller info is needed", "internal/logger.go SetOutputs")],
  [("caller info flag", "strongest need among the outputs")], ["records written"])

p("C19", "Thresholds filter exactly, and syslog gets the right severity",
  "An output with a threshold writes an event if and only if its level is at or above the threshold, for every level and every output kind that has one (console, both rolling kinds, syslog; synchronous and asynchronous), independently of the other outputs of the logger. Syslog records carry the formatted text and the severity debug for Trace and Debug, info for Info, warning for Warn, err for Error and crit for Critical, under the configured prefix. Level names parse case-insensitively to the level that prints them, and anything else parses to no level.",
  ["inputs", "configurations"],
  "all output kinds x all threshold strings (every level in several casings, unknown, empty) x all message levels x pairs of outputs with different thresholds on one logger",
  "the tests check one threshold on an async output with two levels, and no syslog daemon is available to them",
  ["internal/output_base.go", "internal/output_syslog.go", "api/logger_level.go"],
  [("threshold comparison", "internal/output_base.go Send, loop; internal/output_syslog.go Send"), ("level names", "api/logger_level.go")],
  [], ["records written", "calls made on the syslog connection"])

p("C20", "One instance per configured output and format name",
  "Every logger that names an output in the configuration shares one and the same instance of it, created with the creator registered for its type from its configuration, with its configured format set before its first event; likewise for formats. This holds for every set of loggers, every order of lookup and every interleaving of concurrent lookups, and repeated loads of an unchanged definition create no second instance. Closing the manager closes every output it created.",
  ["histories", "configurations", "schedules"],
  "all assignments of up to 3 outputs and 2 formats to up to 3 loggers, all lookup orders, repeated loads, and interleavings of concurrent lookups and loads",
  "the tests look at the number of outputs a lookup returns, never at their identity",
  ["internal/logger_manager.go"],
  [("creation and caching", "internal/logger_manager.go GetLoggerOutputs"), ("close", "internal/logger_manager.go Close")],
  [("instances by name", "created outputs and formats")], ["calls of registered creators", "Output.SetFormatter, Send and Close"])

p("C21", "Archives keep the names and content of all files put into them",
  "Whatever files are put into a zip, tar or gzip archive (gzip: one, whose name the reader supplies), reading it back yields the same names, order and bytes. Copying an archive to another of the same or another kind, or adding rolled files to an existing archive, keeps every entry already there complete and in order. Damage or a failure of the medium is reported, never taken for the end of the archive.",
  ["inputs", "histories"],
  "all lists of up to 3 files with contents from a list (empty, one byte, repeated, incompressible, over one buffer) for all pairs of source and destination kind, and all short histories of rollovers into one growing archive",
  "the tests copy one or two short text files and read back only the entries they expect",
  ["internal/archive/archive.go", "internal/archive/gzip/gzip.go", "internal/archive/tar/tar.go", "internal/archive/zip/zip.go", "internal/output_rollingwriter.go"],
  [("copy", "internal/archive/archive.go Copy, copyBuffer, copyTar, copyZip"), ("growing archive", "internal/output_rollingwriter.go archiveUnexplodedLogs")],
  [], ["entries read back with the standard library readers"])

p("C22", "Application code run by a logging call may itself log, and may panic",
  "Code of the application that a logging call runs (String, Error, Format and GoString methods of arguments and field values, Value of a context, Send of its own outputs, Format of its own formatters) may itself log, look up loggers, query and set levels, set outputs and load a configuration, also while other goroutines use the library: every call returns, and every record, nested or not, reaches each of its outputs exactly once, whole and as if logged on its own. If such code panics and the application recovers, later calls work, lose nothing and write their records as if the panicking call had not been made.",
  ["inputs", "histories", "schedules"],
  "8 places where application code runs, times what it does, times 8 kinds of output and batch sizes; panics in each of several calls; and interleavings of a nesting call with every other kind of call",
  "the tests only log plain strings, from outside",
  ["internal/output_base.go", "internal/output_memory.go", "internal/output_rollingwriter.go", "internal/logger.go", "internal/logger_factory.go", "internal/format_parser.go"],
  [("formatting before locking", "internal/output_base.go Send"), ("dispatch without locks", "internal/logger.go write, ownOutputs")],
  [], ["calls returning", "bytes in each output", "panics reaching the caller"])

p("C23", "Nothing is left open or behind",
  "Between calls a rolling output has at most one file open, its current one, whatever it has written, rolled, archived or removed before and whichever operations failed; loading a configuration file leaves nothing open. No temporary file of archiving remains, unless removing it failed or the process died. While nothing fails it writes nothing to standard output or error. Logging, looking up loggers and loading an unchanged definition do not change the number of goroutines. When Close of the manager has completed, and nothing is logged after it, no file or syslog connection of any output is open and none of their goroutines is left, those of outputs that a load replaced included.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of records, rollovers, loads and Close up to a length, for all kinds of output; every failing file operation of calls with rollovers; things in the way of archives and backups; and interleavings of logging with loads and Close",
  "the tests look at no descriptor, goroutine or temporary file",
  ["internal/output_rollingwriter.go", "internal/output_rolling.go", "internal/output_fsutil.go", "internal/output_base.go", "internal/output_syslog.go", "internal/logger_manager.go"],
  [("closing", "internal/output_rolling.go Close, internal/output_rollingwriter.go Close, roll"), ("temporary archives", "internal/output_rollingwriter.go archiveExplodedLogs, tempArchiveFile"), ("end of the goroutine", "internal/output_base.go loop")],
  [("current file", "the one file kept open")], ["open files and connections", "goroutines", "files in the directory", "standard output and error"])

p("C24", "An output that cannot be created harms no other, and recovers",
  "Creators registered by the application, also in place of built-in ones, are called for their type with the configured entries, at most once per definition while they succeed; what they do to the map they are given has no effect on anything else. If a creator fails (such as syslog that cannot be reached) or no creator is registered for a type, SetConfig, LoadConfig, LoadConfigFile and GetLogger still return without panic: loggers that name such an output behave as if they were not configured (their records go to the inherited outputs, those of the root to the console), GetLoggerOutputs reports an error for them, and every other logger is exactly as configured. The next load after the cause is gone puts everything into the state that configuration prescribes (also when creators panicked before and the application recovered), and every instance that was created is closed by Close.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of loads, first lookups, queries and changes of which creators fail or are registered, up to a length; and interleavings of lookups with a load while creators recover",
  "the tests' creators never fail and are never replaced",
  ["internal/logger_manager.go", "internal/logger_factory.go", "internal/output_syslog.go"],
  [("creation", "internal/logger_manager.go GetLoggerOutputs"), ("fallback", "internal/logger_factory.go createLogger, getRootLogger, notify, unconfigure")],
  [("instances by name", "created outputs and formats with their definitions")], ["calls of registered creators", "events each output gets", "the console", "syslog connections"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
