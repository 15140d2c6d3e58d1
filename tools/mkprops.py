#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for titles and statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=hook)))
L='internal/logger.go';F='internal/logger_factory.go';M='internal/logger_manager.go';O='internal/output_base.go';R='internal/output_rollingwriter.go';RC='internal/output_rolling.go';T='internal/format_parser.go';TX='internal/format_text.go';CI='internal/logger_callerinfo.go';LV='api/logger_level.go';A='internal/archive/archive.go'
p('C01','Level and threshold filtering is exact',
 'A record logged at any level from trace to critical through any logging method reaches an output of its logger exactly once when its level is at or above both the effective level of the logger and the threshold of that output, and never otherwise. Level and threshold names are read without regard to case (a text which is no level counts as not set), the order is All<Trace<Debug<Info<Warn<Error<Critical<Off, and a logger at off emits nothing. The *Enabled queries answer exactly what the logging methods do.',
 ['inputs','configurations','histories'],'every logger level, output threshold, output type (console, memory, size/time rolling file, syslog; sync or async), logging method, and sequence of level changes',
 'TestLoggerFormat logs once per method at level all with one memory output; no test crosses levels with thresholds, several outputs, output types or level changes.',
 [L,O,LV,'internal/output_syslog.go','internal/output_memory.go','internal/output_console.go',RC],
 [('level gate','internal/logger.go defWriter.write / LevelEnabled'),('threshold gate','internal/output_base.go Send and loop, internal/output_syslog.go Send'),('level parsing','api/logger_level.go LevelFrom')],
 obs=['rendered records at every output','LevelEnabled and the six *Enabled queries'])
p('C02','Level and outputs are inherited from the nearest ancestor',
 "A logger without a level of its own uses the level of its nearest ancestor (names split at '/' and '.', ending at root) that has one, and independently a logger without outputs of its own delivers its records, under its own name, to the outputs of its nearest ancestor that has some. Whether a record is enabled is decided by the effective level of the logger it was logged through. A level text which is no level counts as not set. None of this depends on the order in which loggers are obtained, the configuration is loaded, or levels are set.",
 ['histories','configurations'],'every tree of logger names, every subset of configured loggers, and every order of obtaining loggers, loading configuration and setting levels or outputs',
 'TestLoggerParent checks one child of one already-obtained parent; the orders in which ancestors come into existence are never varied.',
 [F,L,M],[('parent creation','internal/logger_factory.go getParent/createLogger'),('configuration fan-out','internal/logger_factory.go notify'),('level walk','internal/logger.go Level'),('output walk','internal/logger.go write')],
 state=[dict(name='parent chain',meaning='ancestor links fixed at creation',where=F)],obs=['Level()','records at each output'])
p('C03','One logger per name under concurrent lookup',
 'All lookups of one name, from any goroutines at any time, return the same logger, and lookups of different names, however alike, return different loggers; the empty name and "root" both mean the root logger. A level set through one handle is therefore seen through every handle of that name and, unless overridden, by every descendant, whoever created it and however lookups were interleaved.',
 ['schedules','inputs'],'every interleaving of concurrent lookups of overlapping names and their ancestors, level changes and configuration loads',
 'The tests look loggers up from one goroutine only.',
 [F,'log4g.go'],[('factory lock and map','internal/logger_factory.go GetLogger')],obs=['identity of returned loggers','Level() of relatives'])
p('C04','Asynchronous outputs neither lose, duplicate nor reorder records',
 'Every record at or above the threshold that a logging call passed to an open asynchronous output is written to its destination exactly once and whole, for any queue size, batch size, number of concurrent loggers and speed of the destination. Records appear in an order consistent with the order of the logging calls: if one call returned before another began, its record comes first.',
 ['schedules','inputs','configurations'],'every interleaving of concurrent producers and the writer, every queue_size/batch_num, slow destinations',
 'TestAsyncOutput sends one event through a queue of one.',
 [O,RC,'internal/output_console.go'],[('event queue','internal/output_base.go asyncOutput.Send/loop'),('batch buffer','internal/output_base.go flush')],obs=['destination file or pipe contents after Close','call/return history of logging calls'])
p('C05','Closing flushes everything and never crashes or hangs the program',
 'When closing the manager (or an output) returns, every record whose logging call had returned before the close began is at its destination. Closing may run concurrently with logging, with other closes and with termination signals, and may be repeated: no logging or closing call ever panics or blocks forever, and for each goroutine the records written by an asynchronous output are a gap-free prefix of those it logged.',
 ['schedules','histories'],'every interleaving of close (API or SIGINT/SIGTERM) with logging calls, at every fill level of the queue, including right after creation',
 'TestAsyncOutput closes after a six second sleep with nothing in flight; TestManager cannot run here.',
 [O,M,'internal/log4g.go'],[('closing handshake','internal/output_base.go asyncOutput.Close'),('manager close','internal/logger_manager.go Close'),('signal handler','internal/log4g.go init')],obs=['destination contents at the moment Close returns','panics, blocked goroutines'])
p('C06','Asynchronous records become visible within a bounded time',
 'Without any further logging call or close, a record accepted by an asynchronous output is written to its destination at most ten seconds later, even if its batch is never filled. Whenever the output is idle, fewer than batch_num records are waiting; an idle output with nothing waiting leaves its destination alone.',
 ['schedules','configurations','histories'],'every batch_num/queue_size, number of waiting records and pattern of quiet periods',
 'TestAsyncOutput uses batch size 1, so neither the timer nor a partially filled batch decides anything.',
 [O],[('flush timer and batch counter','internal/output_base.go loop')],obs=['destination contents at chosen virtual times'])
p('C07','Rotation preserves the log stream',
 'Reading the backups of a size- or time-rolled log from oldest to newest and then the current file gives the written records whole, each exactly once and in an order consistent with the order of the logging calls, with nothing missing other than the oldest part dropped because of the backup limit. This holds for any number of concurrent writers, record sizes, both naming modes, and synchronous or asynchronous output, and also when loading a configuration replaces the output by another one for the same file while records are written (records on their way to an asynchronous output during that load excepted). No backup is ever overwritten, even when the local time is set back.',
 ['schedules','inputs','configurations'],'every interleaving of concurrent writers, record sizes and limits, number of rotations, name mode',
 'TestRollingFileWriter writes at most two 10-byte records from one goroutine and compares file names only, never contents.',
 [R,RC],[('write lock and roll','internal/output_rollingwriter.go Write/roll'),('history ordering','internal/output_rollingwriter.go getSortedLogHistory')],obs=['contents of all log files after the run'])
p('C08','Size rotation keeps the limits and exactly the newest backups',
 'A file that has reached the size limit, in this run or an earlier one, receives no further write (one record, or one batch of an asynchronous output): it is renamed to a backup whose number is one above the highest existing backup number (or the next one above that whose name is not taken by something else). After each rotation at most the configured number of backups remain and they are the ones with the highest numbers. Files in the directory that are not backups of this log are never renamed, changed or removed.',
 ['histories','configurations','inputs'],'every sequence of writes and restarts, every starting directory (gaps in numbering, many digits, foreign files), limit and backup count',
 'Existing cases do at most one rotation each, from hand-picked directories, and never restart the writer on a non-empty file.',
 [R,RC],[('size test','internal/output_rollingwriter.go rollingFileWriterSize.needsToRoll'),('numbering','getNewHistoryRollFileName'),('retention','deleteOldRolls')],state=[dict(name='directory listing',meaning='backups = current name + numeric tail',where=R)],obs=['directory listing and contents after every write'])
p('C09','Time rotation files each record under its period',
 'With a synchronous time-rolled output whose period names increase with time, a record is stored in the current file while its period lasts and afterwards in the backup named with the local-time name of that period, never with records of another period. This also holds when the program was stopped in between, and at most the configured number of backups, those of the latest periods, remain.',
 ['histories','configurations','inputs'],'every sequence of write times (seconds to years apart), time pattern, time zone, restart and starting directory',
 'No test constructs a time-rolled writer that rolls; wall-clock tests could not cross a day.',
 [R,RC],[('period test','internal/output_rollingwriter.go rollingFileWriterTime.needsToRoll'),('backup name','getNewHistoryRollFileName'),('retention order','sortFileRollNamesAsc')],obs=['directory listing and contents at virtual times'])
p('C10','With archiving on, old backups are compressed, never lost',
 'When archiving (zip or gzip) is configured, a backup beyond the backup limit disappears only after an archive named after it, which decompresses to exactly its bytes, has been put in its place. Archives plus backups plus the current file therefore always hold the complete log in order, and if an archive cannot be made the backup is kept. Archives made are never replaced by those of other backups, also when backups were moved away and their numbers are used again.',
 ['histories','configurations','fault_sequences'],'every archive type, rolling type, naming mode, record content, number of rotations, and failures while archiving',
 'Two cases archive an empty file through an internal option that configuration cannot set, and compare names only.',
 [R,RC,A],[('archiving','internal/output_rollingwriter.go archiveExplodedLogs/deleteOldRolls'),('configuration','internal/output_rolling.go NewRollingOutput')],obs=['archive contents compared with what was logged'])
p('C11','Logged records survive a crash at any point',
 'If the process is killed at any moment and restarted on the same files any number of times, every record whose logging call on a synchronous rolling output had returned is still found in the backups, archives or current file, in order and uncorrupted (beyond the backup limit when not archiving). Nothing left behind by a crash prevents later runs from logging and rotating.',
 ['crash_points','histories'],'every point at which the process can die, in particular around each file-system operation of rotation, retention and archiving; any number of restarts',
 'No test kills a process or restarts on the files of an earlier run.',
 [R],[('append without buffering','internal/output_rollingwriter.go Write'),('rename-then-recreate','roll'),('archive via temporary file','archiveExplodedLogs')],obs=['files found after kill and restart'],hook='crash points are injected below the library, in a build-time overlay of package os')
p('C12','Logging recovers from file-system failures',
 'When opening, renaming, listing, removing or writing log files fails for a while, logging calls still return without panic, everything already written stays readable, and every record logged after the failures stop is written. A failed rotation alone loses no record and is made up for by the next record once it can succeed, and failures of one output never affect the other outputs of the logger. When the log file or its directory is moved away, linked elsewhere, truncated or removed while in use, nothing written is lost but what was removed, and logging goes on in a file at the configured place no later than the next rotation or restart.',
 ['fault_sequences','histories'],'every sequence of failing file-system operations (which, when, how long)',
 'No test makes a file operation fail.',
 [R,O],[('error paths of rotation','internal/output_rollingwriter.go Write/roll/createFileAndFolderIfNeeded')],obs=['records found after the faults stop','records at a second output'],hook='errors are injected below the library, in a build-time overlay of package os')
p('C13','A layout renders every record exactly as documented',
 'For every layout made of literal text and documented verbs with optional Go format specifications, and every record, the text written is the concatenation of the literal text and each verb formatted with its value: message (formatted with the arguments given to the call), logger name, level in long and short form, time in the given time layout, process id, program name and record fields. Nothing in messages, arguments, names or field values is reinterpreted.',
 ['inputs','configurations'],'every layout, format specification, logger name, message, argument list, field set and level',
 'Half a dozen fixed layouts and messages are tested.',
 [T,TX,'api/logger_api.go',LV],[('layout parser','internal/format_parser.go Parser'),('renderer','internal/format_parser.go Format'),('message','api/logger_api.go Event.Message')],obs=['bytes written to outputs'])
p('C14','The reported call site is the call site',
 'File, line, package and function shown for a record are those of the statement that called the logging method, for every logging method of a logger or of a writer with fields or context, whether outputs are the logger\'s own or inherited through any number of levels, synchronous or asynchronous, whatever the combination of layouts on the outputs. With a caller skip of k they are those of the k-th caller above.',
 ['inputs','configurations','programs'],'every logging method, receiver kind, depth of inheritance, skip, and shape of the calling code (functions, methods, closures, goroutines, deferred calls)',
 'TestFormat2-5 call Debug only, on a logger with its own synchronous output.',
 [CI,L,T],[('stack depth','internal/logger.go write/Printf callerSkip'),('function name split','internal/logger_callerinfo.go getCallerInfo'),('flag propagation','internal/logger.go SetOutputs, CallerInfoFlag')],obs=['rendered file/line/package/function against runtime facts at the call'])
p('C15','Bad configuration is refused and changes nothing',
 'Loading a configuration that cannot be read or parsed, is of an unsupported file type, or that defines two formats, outputs or loggers of one name or refers to an undefined format or output, returns an error, never panics, and leaves all logging behaviour as it was, as do changes which the caller makes later to a configuration structure it has passed. A valid configuration is accepted, and gives the same behaviour whether supplied as YAML, JSON, file or structure.',
 ['inputs','configurations','histories'],'every configuration, every way of breaking it, every byte string and file name given to the loaders',
 'TestManager loads one valid YAML text and cannot pass here; no invalid configuration is tried.',
 [M,'api/logger_mange.go'],[('validation','internal/logger_manager.go validateConfig'),('loading','LoadConfig/LoadConfigFile/setConfig')],obs=['returned errors','records before and after'])
p('C16','Rolling file settings mean what they say',
 'A size of nK, nM or nG (or plain n) means n KiB, MiB or GiB (or bytes); backups between 1 and 20 is the number of backups kept; file, directory and backup permissions given in octal are those of created files, created directories and backups; name_mode decides whether backup numbers follow or precede the file name; and the log goes to the configured path, creating missing directories.',
 ['configurations','inputs'],'every combination of valid setting values',
 'The tests set the writer fields directly and never go through the setting strings.',
 [RC,R],[('setting parsers','internal/output_rolling.go getMaxSize/getMaxRolls/getFileMode')],obs=['file sizes at rotation, file modes, names'])
p('C17','A newly accepted configuration takes effect completely',
 'Once loading a new configuration returns, every logger, including those obtained earlier, uses exactly the levels, outputs, thresholds and layouts of the new configuration, even where it reuses names of formats or outputs for other definitions; loggers it no longer mentions inherit again. Records logged before are not lost, and outputs whose definition is unchanged go on undisturbed.',
 ['histories','configurations'],'every sequence of valid configurations interleaved with obtaining loggers and logging',
 'No test loads a second configuration after logging through the first.',
 [M,F],[('output and format caches','internal/logger_manager.go setConfig/GetLoggerOutputs'),('notification','internal/logger_factory.go notify')],obs=['records at the files of each configuration'])
p('C18','The logging API is free of data races',
 'All operations on loggers and the manager (logging, looking up loggers, changing levels, outputs and caller skip, loading configuration, registering creators, closing) may be used from any goroutines concurrently without data races in the library, with every built-in output type.',
 ['schedules'],'every interleaving of API calls from several goroutines',
 'No test uses more than one goroutine, and the tests are not run with the race detector.',
 [L,F,M,O,'internal/output_memory.go',R],[('locks','factory, manager, logger, output and writer locks')],obs=['Go race detector reports'])
p('C19','A record shows the values at the time of the call',
 'The text of a record reflects its arguments and field values as they were when the logging call was made: changing them after the call has returned never changes what any output, synchronous or asynchronous, writes, and is not a race.',
 ['schedules','inputs'],'every kind of mutable argument or field (pointer, slice, map, stringer) and every delay between the call and the write',
 'Asynchronous tests log constants only.',
 [O,'api/logger_api.go'],[('formatting before queueing','internal/output_base.go asyncOutput.Send')],obs=['written text compared with a snapshot taken before the call'])
p('C20','Syslog messages carry the right severity and content',
 'Each record delivered to a syslog output is sent as exactly one message containing the record rendered with the configured format and the configured prefix as its tag, with severity debug for trace and debug, informational for info, warning for warn, error for error and critical for critical. Records from concurrent goroutines never mix, and logging resumes after the daemon was restarted.',
 ['inputs','schedules','fault_sequences'],'every level, content, prefix, interleaving of loggers and restart of the daemon',
 'The only test that opens a syslog output fails without a daemon and checks no message.',
 ['internal/output_syslog.go'],[('severity switch','internal/output_syslog.go Send')],obs=['datagrams received by a stand-in daemon'])
p('C21','Copying between archives preserves every entry',
 'Copying an archive into another of the same or another type (tar, zip, gzip) yields the same entries in the same order with the same names and contents, and adding files and reading them back yields what was added; what the target cannot represent gives an error rather than silently merged, truncated or lost data. A copy into an archive of the same type (tar, zip) also keeps what the source records of its files, links and devices.',
 ['inputs'],'every list of entries (names, sizes from empty to larger than any buffer, contents, counts) and every pair of archive types',
 'TestCopy uses one or two tiny entries of near-equal length per pair of types.',
 [A,'internal/archive/tar/tar.go','internal/archive/zip/zip.go','internal/archive/gzip/gzip.go'],[('copy loops','internal/archive/archive.go Copy/copyBuffer/copyTar/copyZip')],obs=['entries read back with the Go standard library'])
p('C22','Each configured output exists once and is shared',
 'However many loggers name an output, and however they are first looked up concurrently, that output is created once through the creator registered for its type, receives its formatter before its first record, and is shared by all of them, with a format shared likewise. Registered custom formatters and outputs are used exactly like built-in ones, and closing the manager closes every created output.',
 ['schedules','configurations'],'every interleaving of lookups and configuration loads over loggers sharing outputs; custom and built-in types',
 'No test registers a custom type or shares an output between loggers.',
 [M],[('creation under the manager lock','internal/logger_manager.go GetLoggerOutputs')],obs=['creator calls and events at instrumented custom outputs'])
p('C23','Concurrent records stay whole and ordered at synchronous outputs',
 'Records logged concurrently to a synchronous console, memory or rolling-file output, alone or through loggers sharing it, each appear exactly once and as one contiguous piece, and if one logging call returned before another began, its record comes first.',
 ['schedules','inputs'],'every interleaving of concurrent logging calls, record sizes and output types',
 'No test logs from two goroutines.',
 [O,'internal/output_memory.go','internal/output_console.go',R],[('single write per record under a lock','internal/output_base.go Send')],obs=['destination contents','call/return history'])
p('C24','Fields and context belong to their own records only',
 'A record written through a writer obtained with fields or a context shows exactly the field values given to that writer, on every output of the logger, own or inherited; other records and writers never show them, and a later field of the same key wins.',
 ['schedules','inputs','configurations'],'every set of fields, any number of writers used concurrently, any depth of inheritance',
 'TestLoggerFields writes one record through one writer on a logger with its own output.',
 [L,T],[('context carried by the writer','internal/logger.go WithFields/WithCtx/write')],obs=['field text in each record'])
p('C25','Files, goroutines and memory are released',
 'However often logs are rotated, archived (also when that fails), configurations are loaded, outputs are replaced and closed, and records are logged, the process holds at most one open file or connection for each output in use, one goroutine for each open asynchronous output, no temporary file of an archive, and no memory that grows with the number of operations. A closed or replaced output holds no file, connection or goroutine.',
 ['histories','fault_sequences','configurations'],'every sequence of rotations, failing file operations, loads, closes and logging calls, of any length',
 'No test looks at open files, goroutines or memory.',
 [R,RC,O,M],[('closing on every path','internal/output_rollingwriter.go roll/archiveExplodedLogs/Close'),('end of the loop','internal/output_base.go asyncOutput.Close'),('closing replaced outputs','internal/logger_manager.go setConfig/forgetStale')],obs=['/proc/self/fd, goroutine dump, live heap'])
p('C26','Values, formatters and outputs may log while they are used by logging',
 'The String, Error, Format and GoString methods of logged values, contexts, custom formatters and custom outputs may, while a logging call uses them, themselves log through any logger (to any depth), look loggers up, change levels and outputs, load configurations and close the manager: no call blocks forever, and every record of every level of nesting reaches its outputs exactly once, whole and with its own values (those made after a close excepted). If one of them panics or ends its goroutine - also while outputs and formats are created, set up, looked up or closed - the loggers and the outputs go on working, no call blocks from then on, the next configuration takes effect in full, and no other record is affected.',
 ['inputs','schedules','histories'],'every nesting of logging calls and API operations within logging calls, from any number of goroutines, with panics',
 'No test logs a value that has methods of its own.',
 [L,O,T,F,M],[('formatting outside of locks','internal/output_base.go asyncOutput.Send / baseOutput.Send'),('buffers of their own for each call','internal/format_text.go Format'),('snapshot of level and outputs','internal/logger.go write')],obs=['records at every output','calls that do not return'])
p('C27','A suppressed record evaluates nothing',
 'When no output takes a record - the logger it is logged through is at a higher level, every output has a higher threshold, or there are no outputs - no method of its arguments, fields or context is called, during the call or later, and when its level is disabled no output or formatter sees it; making a writer with fields or a context calls none either. A record which is shown shows what these methods return.',
 ['inputs','configurations','histories'],'every level, threshold, tree of loggers, output type, kind of argument and logging method',
 'The tests log strings and numbers only.',
 [L,O,'internal/output_syslog.go'],[('level gate','internal/logger.go write'),('threshold gate','internal/output_base.go Send, internal/output_syslog.go Send')],obs=['calls of the methods of arguments, fields, contexts, formatters and outputs'])
p('C28','Outputs receive the event as it was logged, for good',
 'Each custom output of a logger, own or inherited, is sent during the logging call exactly one event per record, carrying the name of the logger the record was logged through, its level, format and arguments as passed, the values and deadline of its context, and a time between call and return. The output may keep the event: the library neither changes nor reuses it, and formatting it later, from any goroutine, gives the same text, including time and call site, as formatting it during the call, if the output reports its formatter\'s caller flag.',
 ['schedules','inputs','configurations'],'every record, tree of loggers, layout, number of goroutines and outputs, and moment of use of a kept event',
 'The tests use built-in outputs, which format at once.',
 [L,'api/logger_api.go',CI,T],[('event of its own for each call','internal/logger.go write'),('caller information captured at the call','internal/logger.go write, internal/logger_callerinfo.go getCallerInfo')],obs=['kept events, compared with the call at several moments','data race reports'])
p('C29','Configurations loaded concurrently take effect one after another',
 'When several configurations are loaded at the same time, through any entry points, the outcome is that of loading them one after another in an order consistent with their calls and returns: after all have returned, one accepted configuration which no other accepted load wholly followed is in force as a whole - for every logger obtained before, during or after the loads, its level, outputs and formats are those of this configuration - and refused ones have no part in it.',
 ['schedules','configurations','histories'],'every interleaving of concurrent loads of different configurations, lookups and logging calls',
 'The tests load one configuration.',
 [M,F],[('configuration swap and notification','internal/logger_manager.go setConfig'),('fan-out under the lock of the factory','internal/logger_factory.go notify')],obs=['outputs in force','deliveries and levels after the loads','call/return history of loads'])
p('C30','A slow destination holds up only those who must wait for it',
 'While the destination of one output stands still (a file operation or the syslog daemon hangs), only calls which must write to it wait: records to other outputs, suppressed records, level queries and changes, lookups, and loads that keep or refuse go on with their usual effect, and a load dropping the output completes once the destination goes on. A call logging to an asynchronous output returns at once while fewer than queue_size records wait; no more than queue_size plus batch_num records are ever accepted unwritten, and each write passes batch_num records, or those there are at a flush by the timer or at the close. When the destination goes on, every waiting call returns and every record is there once, in order.',
 ['schedules','configurations','fault_sequences'],'every output type, synchronous or asynchronous, queue and batch size, file operation at which it stops, and mix of calls made meanwhile from other goroutines',
 'The tests write to working files from one goroutine.',
 [O,R,L,F,M,'internal/output_syslog.go'],[('queue and batches','internal/output_base.go NewAsyncOutput and loop'),('a lock for each output only','internal/output_base.go Send, internal/output_rollingwriter.go'),('closing of dropped outputs after the swap','internal/logger_manager.go setConfig')],obs=['return of each call while the destination stands still','bytes at each file operation','records at the destinations'],hook='file operations (overlay of package os)')
p('C31','Odd settings and arguments never crash the program or disturb other outputs',
 'Whatever a configuration contains - empty, misspelt, negative, enormous or malformed settings, layouts, names, levels and file names - loading it and logging under it return without panic, and outputs that are in order keep receiving exactly their records, also when they share a logger with odd ones that could be created. The same holds for odd arguments of the logging and logger functions: levels and skips out of range, empty or repeated field keys, nil values, malformed format strings. An ordinary configuration loaded later works as usual.',
 ['inputs','configurations','histories'],'every value of every setting and argument, on every output type, synchronous or asynchronous, also while files roll',
 'The tests use a handful of valid settings.',
 [T,TX,O,RC,R,L,M,'api/logger_level.go'],[('settings parsed with fallbacks','internal/output_base.go, internal/output_rolling.go'),('layout parser','internal/format_parser.go'),('failure of one output kept from the others','internal/logger.go write')],obs=['panics and return of each call','records at the outputs in order'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
