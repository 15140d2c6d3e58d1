M='runtime monitoring: '
X='Each observed execution is decided exactly; executions not generated are not covered. '
c('C01',M+'deliveries at every output compared with a reference model of levels and thresholds, over random histories',X+'Trusts the stand-in syslog socket.')
c('C02',M+'levels and deliveries compared with a reference model of the name tree, over random histories of lookups, loads, level and output changes',X)
c('C03',M+'identity of handles obtained by concurrent lookups under stress, and levels seen through them',X+'Schedules are those the runtime produces at 2 to 16 processors.')
c('C04',M+'offline checker (exactly once, whole, real-time FIFO) over the recorded histories of concurrent producers and asynchronous outputs',X+'Schedules are produced by stress and slowed destinations.')
c('C05',M+'outcome, watchdog and content of the destination of processes which close in every state under load',X+'A hang is told by an idle process with a call blocked in the library.')
c('C06',M+'visibility of records at the destination in virtual time (testing/synctest)',X+'Virtual time stands for real time.')
c('C07',M+'offline checker over histories: concatenation of backups and current file compared with the logged stream',X)
c('C08',M+'directory compared with a reference model of size rotation after every record',X)
c('C09',M+'directory compared with a reference model of time rotation in virtual time and many time zones',X+'Virtual time stands for the clock; file times are set by the harness before restarts.')
c('C10',M+'directory model with fault injection and delays below package os; archives read back with the standard library',X+'Faults are injected at the entry points of package os.')
c('C11',M+'crash injection (SIGKILL at every file operation) and recovery, conservation oracle over the recorded history',X+'A crash is the death of the process, not of the operating system.')
c('C12',M+'fault injection (errors below package os and real ones) in virtual time, conservation and recovery oracle',X+'Faults are injected at the entry points of package os.')
c('C13',M+'every record compared with an independent renderer of the documented layout language, over random layouts and records',X)
c('C14',M+'reported call sites compared with generated call sites in several packages, kinds of functions and wrappers',X)
c('C15',M+'bad configurations by mutation of valid ones; refusal, and deliveries before and after compared with the model',X)
c('C16',M+'file names, permissions and limits observed after real writes compared with the configured settings',X)
c('C17',M+'deliveries after every load compared with a model of the configuration accepted last, in virtual time',X)
c('C18',M+'the Go race detector under stress workloads covering all pairs of API operations',X+'The detector reports races between accesses that happened; others are missed.')
c('C19',M+'content compared with a snapshot taken at the call, with arguments changed right after it, under the Go race detector',X)
c('C20',M+'datagrams received by a stand-in syslog daemon compared with the records logged',X+'The socket path of log/syslog is redirected by a build overlay of the standard library.')
c('C21',M+'archives read back with the Go standard library after copies with generated entries, damage and injected faults',X+'The internal packages are reached through a package added by a build overlay.')
c('C22',M+'custom creators, formatters and outputs recording every call, under concurrent first lookups, loads and closes',X+'Schedules are those the runtime produces at 2 to 16 processors.')
c('C23',M+'offline checker (whole, exactly once, linearizable order) over recorded histories of concurrent calls at synchronous outputs',X)
c('C24',M+'fields and context values in every delivered record compared with those of its own call, under concurrency',X)
c('C25',M+'descriptors, goroutines, temporary files and live heap of the process compared with what the outputs in use need, over random histories with injected failures',X+'Faults are injected at the entry points of package os.')
c('C26',M+'records at all outputs after generated nestings of logging calls and API operations within logging calls, with panics, and after broken creations, set-ups and closes; watchdog for calls that never return',X+'A hang is told by an idle process with a call blocked in the library.')
c('C27',M+'spies among arguments, fields, contexts, formatters and outputs count every call made to them by suppressed records',X)
c('C28',M+'events kept by custom outputs compared with their calls at several moments, and their later rendering with that of a synchronous output, under the Go race detector',X)
c('C29',M+'offline checker: configuration in force after concurrent loads compared, by deliveries and levels, with the candidates the call/return history allows',X+'Schedules are those the runtime produces at 2 to 8 processors.')
c('C30',M+'destinations stopped in the middle of file operations (overlay of package os) or of receiving, while monitors check which calls return; batch sizes read off files that roll with every write',X+'A wait is told by a call blocked in the library for 30 s.')
c('C31',M+'generated odd settings, layouts, names and arguments; panics, and records at the outputs in order, compared with a model',X)
