#!/usr/bin/env python3
"""run.py WORKER NWORKERS OUT FILE:STEP[:OFFSET]...
Mutation testing of the checks, in a scratch copy of /repo: each mutant that
builds and passes the tests is given to the checks of its file."""
import os,sys,subprocess,shutil,re
w,nw,out=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
base='/tmp/mut.d/%d'%w
repo=base+'/repo'
os.makedirs(base,exist_ok=True)
shutil.rmtree(repo,ignore_errors=True)
subprocess.check_call(['cp','-a',os.environ.get('MUT_SRC','/repo'),repo])
MAP={'ansi/sgr.go':'C01 C02 C10 C13 C08','ansi/decode.go':'C03 C05 C18 C14 C09','ansi/escape.go':'C03 C04','ansi/funcs.go':'C04 C05 C03','ansi/control.go':'C04 C05 C03 C08','ansi/modes.go':'C05 C04','ansi/mouse.go':'C05 C21','ansi/geom.go':'C06 C12','ansi/colors.go':'C07 C01','cursor.go':'C08 C09 C10','state.go':'C08 C09 C10','screen.go':'C10 C11 C09','grid.go':'C12 C13 C10 C09','draw.go':'C12','style.go':'C12','render.go':'C10 C13 C11','bitmap.go':'C35 C13','buffer.go':'C14 C11','attr.go':'C16','attr_linux.go':'C16','mode.go':'C16 C15 C04','context.go':'C15 C16','term.go':'C15 C16 C37','signal.go':'C16 C17 C22','input.go':'C17 C18 C20 C16 C25','output.go':'C19 C24',
'x/platform/event.go':'C21 C27 C28 C26','x/platform/platform.go':'C22 C25 C16 C28 C24','x/platform/tick.go':'C22 C25','x/platform/bg.go':'C24 C23','x/platform/log.go':'C23 C27 C24','x/platform/config.go':'C36 C34 C28','x/platform/diag.go':'C33 C28 C24','x/platform/editline.go':'C26 C28','x/platform/hud.go':'C27 C28','x/platform/replay.go':'C25','x/platform/state.go':'C25 C22','x/platform/options.go':'C33 C34 C30','cmd/to24bit/main.go':'C31','cmd/decode/main.go':'C31 C32','terminfo/read.go':'C29','terminfo/terminfo.go':'C29','terminfo/builtin.go':'C29'}
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GO111MODULE='on',VERIF_STOP_FIRST='1',VERIF_BUDGET_S=os.environ.get('MUT_BUDGET','100'),VERIF_DIR=base,VERIF_WORK=base)
MC='/verif/mc'
mod=base+'/pm.mod'
s=open(MC+'/go.mod').read().replace('=> /repo','=> '+repo)
open(mod,'w').write(s)
shutil.copy(MC+'/go.sum',base+'/pm.sum')
open(base+'/known_findings.txt','w').write('')
def sh(cmd,timeout,cwd=repo):
    p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout)
        return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9)
        p.communicate()
        return -9,'timeout'
n=-1
for spec in sys.argv[4:]:
    f,step,off=(spec.split(':')+['1','0'])[:3] if spec.count(':')<2 else spec.split(':')
    step,off=int(step),int(off)
    orig=open(repo+'/'+f).read()
    muts=subprocess.check_output(['/tmp/mut',repo+'/'+f]).decode().splitlines()
    for m in muts[off::step]:
        n+=1
        if n%nw!=w: continue
        i,line,what=m.split('\t',2)
        open(repo+'/'+f,'wb').write(subprocess.check_output(['/tmp/mut',base+'/orig.go' if 0 else f,i],cwd=os.environ.get('MUT_SRC','/repo')))
        res=None
        rc,o=sh(['go','build','./...'],120)
        if rc: res='nobuild'
        if not res:
            rc,o=sh(['go','test','./...'],90)
            if rc: res='test'
        if not res:
            checks=MAP[f].split()
            bins={}
            for c in checks:
                kind='i' if c in('C23','C24') else 'p'
                if kind not in bins:
                    b=base+'/mc'+kind
                    if kind=='p':
                        rc,o=sh(['go','build','-tags','osusergo','-modfile',mod,'-o',b,'./cmd/mc'],200,MC)
                    else:
                        ins=base+'/ins'
                        shutil.rmtree(ins,ignore_errors=True); os.makedirs(ins)
                        rc,o=sh(['go','run','./cmd/instr',ins,repo+'/x/platform'],100,MC)
                        if rc==0: rc,o=sh(['go','build','-tags','osusergo','-overlay',ins+'/overlay.json','-modfile',mod,'-o',b,'./cmd/mc'],200,MC)
                    bins[kind]=b
                    if rc:
                        res='harness-build'; break
                rc,o=sh([bins[kind],c,'quick'],300,base)
                if rc==1: res='killed '+c; break
                if rc!=0: res='rc=%d %s'%(rc,c); break
            if not res: res='SURVIVED'
        open(out,'a').write('%s\t%s:%s\t#%s\t%s\n'%(res,f,line,i,what))
    open(repo+'/'+f,'w').write(orig)
shutil.rmtree(base,ignore_errors=True)
