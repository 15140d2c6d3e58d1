#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects repaired by fix: commits, and those recorded only."""
import json, subprocess, os
log = subprocess.check_output(['git','-C','/repo','log','--format=%h\t%s'],text=True).strip().split('\n')
h = {s.split('\t')[1]: s.split('\t')[0] for s in log}
F = [
 ('C16','honour the number in a size with a K, M or G suffix','a size of nK, nM or nG was always taken as 10240K, 10M or 1G'),
 ('C15','refuse a configuration defining a logger twice','two loggers of one name were accepted'),
 ('C15','return the error for a configuration that cannot be parsed instead of applying an empty one','unparsable bytes or an unsupported type replaced the configuration by an empty one and returned nil'),
 ('C15','do not panic on a configuration file name without extension','LoadConfigFile panicked'),
 ('C02','keep fields and the logger\'s own level when outputs are inherited','a record through inherited outputs was dropped when the ancestor\'s level was higher'),
 ('C24','keep fields and the logger\'s own level when outputs are inherited','fields and context were lost through inherited outputs'),
 ('C14','report the caller of Printf instead of its caller\'s caller','Printf reported the wrong frame'),
 ('C02','configure ancestors created along with a logger','an ancestor created implicitly never received its configuration'),
 ('C18','guard level, outputs and caller skip of a logger','data races of SetLevel, SetOutputs, SetCallerSkip and reconfiguration with logging'),
 ('C23','make the memory output safe for concurrent use','concurrent records were lost or mixed in the memory output'),
 ('C01','honour the threshold of a memory output','the threshold of a memory output was ignored'),
 ('C05','close an asynchronous output without losing events or panicking','send on closed channel, lost records, double close'),
 ('C19','format events of asynchronous outputs when they are logged','records showed arguments changed after the call'),
 ('C06','do not touch the destination of an idle asynchronous output','an idle asynchronous output rotated its file'),
 ('C10','archive backups configured with archive: zip or gzip','configured archiving lost the backups'),
 ('C10','do not delete backups which could not be archived','backups were deleted although archiving failed'),
 ('C12','keep logging when rolling fails and roll files left by an earlier run','a failed rotation lost records for good'),
 ('C08','keep logging when rolling fails and roll files left by an earlier run','a file left at its limit by an earlier run received more records'),
 ('C09','roll by time a file left by a run in an earlier period','records of different periods in one file after a restart'),
 ('C14','show package names with a dot in the last element unescaped','the package gopkg.in/yaml.v2 was shown as gopkg.in/yaml%2ev2'),
 ('C14','show the name of a generic function as its short name','the short name of a generic function was shown as ]'),
 ('C21','refuse to copy a second gzip file into a gzip archive','copying two gzip files into one gzip archive merged them silently'),
 ('C21','report a zip entry cut short instead of ending the copy','a damaged zip whose entry starts beyond the end of the file was copied without it and without error'),
 ('C15','keep a copy of the configuration structure set by the caller','a structure changed by its caller after SetConfig took effect without being set, even when refused'),
 ('C12','roll the file of an earlier period although its first rotation failed','after a failed time rotation the records of the earlier period stayed in the current file and were filed under a later one'),
 ('C25','do not leave the file open which a record opens after its rolling output was closed','a record on its way while its output was replaced left the file open for good'),
 ('C25','do not leave the connection open which a record makes after its syslog output was closed','a record on its way while its syslog output was replaced left the connection open for good'),
 ('C07','do not lose backups when an output of the same file takes over','loading a configuration with another output for the same file while logging overwrote whole backups'),
 ('C07','never replace a backup by another one of the same period name','backups of the hour that comes twice in autumn were overwritten'),
 ('C25','close the file of a rolling output with the output','every reload left the file of a closed rolling output open'),
 ('C25','remove the temporary file of an archive that cannot be moved into place','a temporary archive stayed behind after each failed move'),
 ('C17','apply changed definitions when a configuration is loaded again','redefined formats and outputs were ignored, removed loggers kept their levels and outputs'),
 ('C21','copy sparse files between tar archives as the regular files they are read as','a copy of a tar archive with a GNU sparse file gave no error and an unreadable archive'),
 ('C14','do not take a field named like the key of the call site for it','a field or context value called __caller_info made a logging call panic when a layout shows the call site'),
 ('C14','show the call site of a record logged with the context of another event','a record logged with the context of another event, e.g. by an output passing it on, showed the call site of that event'),
 ('C12','do not file records under an earlier period after the log file was moved away','when the file was moved away or removed, the first record of the next period was rolled into the backup of the earlier one'),
 ('C08','go on rotating when a directory or link has the name of the next backup','an entry which is no file but has the name of the next backup stopped the rotation for good; the file grew without bound'),
 ('C10','never replace an archive by that of another backup','when the backups were moved away or deleted while archives of them remained, numbers started again and these archives were overwritten'),
]
fixed=[]
for p,s,w in F:
    c=h['fix: '+s]
    fixed.append('fixed: property=%s %s %s'%(p,c,w))
d={'findings':[], 'fixed':fixed}
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','known_findings.json')
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
