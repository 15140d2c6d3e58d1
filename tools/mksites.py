#!/usr/bin/env python3
"""Generates harness/sites: functions of many shapes, one per logging method."""
import os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','sites')
LV=['Trace','Debug','Info','Warn','Error','Critical']
M=[(l,'wr.%s(msg)'%l,'%s(msg)'%l) for l in LV]+[(l+'f','wr.%sf("%%s", msg)'%l,'%sf("%%s", msg)'%l) for l in LV]+[('Printf','wr.Printf(api.Info, "%s", msg)','Printf(api.Info, "%s", msg)')]
A='(wr api.Writer, msg string, rep func([]Site))'
def body(name,call,args,full):
    o=[]
    R='rep(Frames())'
    def add(shape,src): o.append(src); reg.append((shape,name))
    reg=[]
    add('function','func Function%s%s { %s; %s }\n'%(name,A,call,R))
    if full:
        add('value method','func (t ValueT) M%s%s { %s; %s }\nfunc Value%s%s { ValueT{1}.M%s(wr, msg, rep) }\n'%(name,A,call,R,name,A,name))
        add('pointer method','func (t *PtrT) M%s%s {\n\tt.n++\n\t%s; %s\n}\nfunc Ptr%s%s { new(PtrT).M%s(wr, msg, rep) }\n'%(name,A,call,R,name,A,name))
        add('closure','func Closure%s%s {\n\tf := func() { %s; %s }\n\tf()\n}\n'%(name,A,call,R))
        add('nested closure','func Nested%s%s {\n\tfunc() {\n\t\tfunc() {\n\t\t\t%s; %s\n\t\t}()\n\t}()\n}\n'%(name,A,call,R))
        add('goroutine','func Go%s%s {\n\tdone := make(chan bool)\n\tgo func() {\n\t\tdefer close(done)\n\t\t%s; %s\n\t}()\n\t<-done\n}\n'%(name,A,call,R))
        add('deferred closure','func Deferred%s%s {\n\tdefer func() {\n\t\t%s; %s\n\t}()\n\tmsg += ""\n}\n'%(name,A,call,R))
        add('recovering closure','func Recover%s%s {\n\tdefer func() {\n\t\trecover()\n\t\t%s; %s\n\t}()\n\tpanic("x")\n}\n'%(name,A,call,R))
        add('method value','func MethodValue%s%s {\n\tf := wr.%s\n\tf(%s; %s\n}\n'%(name,A,name,args.split('(',1)[1],R))
        add('method expression','func MethodExpr%s%s {\n\tapi.Writer.%s(wr, %s; %s\n}\n'%(name,A,name,args.split('(',1)[1],R))
        add('embedding struct','func Embedded%s%s {\n\tvar e api.Writer = embT{wr}\n\te.%s; %s\n}\n'%(name,A,args,R))
        add('generic function','func generic%s[T any](t T, wr api.Writer, msg string, rep func([]Site)) { %s; %s }\nfunc Generic%s%s {\n\tgeneric%s(map[string]int{}, wr, msg, rep)\n}\n'%(name,call,R,name,A,name))
        add('generic method','func (t genT[T]) m%s%s { %s; %s }\nfunc GenericM%s%s {\n\tgenT[int]{}.m%s(wr, msg, rep)\n}\n'%(name,A,call,R,name,A,name))
        add('loop','func Loop%s%s {\n\tfor i := 0; i < 1; i++ {\n\t\tif wr != nil {\n\t\t\t%s; %s\n\t\t}\n\t}\n}\n'%(name,A,call,R))
        add('function variable','var FuncVar%s = func%s { %s; %s }\n'%(name,A,call,R))
    return o,reg
names={'function':'Function','value method':'Value','pointer method':'Ptr','closure':'Closure','nested closure':'Nested','goroutine':'Go','deferred closure':'Deferred','recovering closure':'Recover','method value':'MethodValue','method expression':'MethodExpr','embedding struct':'Embedded','generic function':'Generic','generic method':'GenericM','loop':'Loop','function variable':'FuncVar'}
def gen(path,pkg,imp,full):
    src='// Code generated by tools/mksites.py. DO NOT EDIT.\n\npackage %s\n\nimport (\n%s\t"github.com/xtfly/log4g/api"\n)\n\n'%(pkg,imp)
    if not full: src+='type Site = sites.Site\n\nvar Frames = func() []Site { return sites.FramesAt(1) }\n\n'
    tab=[]
    for n,c,a in M:
        o,r=body(n,c,a,full)
        src+='\n'.join(o)+'\n'
        tab+=[(s,n) for s,_ in r]
    src+='// All holds the functions by shape and method.\nvar All = map[string]map[string]func(api.Writer, string, func([]Site)){\n'
    for s in dict.fromkeys(t[0] for t in tab):
        src+='\t%s: {\n'%('"%s%s"'%('' if full else pkg+' ',s))
        for s2,n in tab:
            if s2==s: src+='\t\t"%s": %s%s,\n'%(n,names[s],n)
        src+='\t},\n'
    src+='}\n'
    os.makedirs(os.path.dirname(path),exist_ok=True)
    open(path,'w').write(src)
gen(V+'/gen.go','sites','',True)
gen(V+'/inner/gen.go','inner','\t"vmon/sites"\n\n',False)
gen(V+'/dot.ted/gen.go','dotted','\t"vmon/sites"\n\n',False)
# names of packages: one letter, like a version, with signs, and paths with such elements
gen(V+'/q/gen.go','q','\t"vmon/sites"\n\n',False)
gen(V+'/q/v2/gen.go','q2','\t"vmon/sites"\n\n',False)
gen(V+'/q.x/gen.go','qx','\t"vmon/sites"\n\n',False)
gen(V+'/a-b_c~d/gen.go','abcd','\t"vmon/sites"\n\n',False)
