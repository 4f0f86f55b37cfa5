import sys,subprocess
def fix(msg, *edits):
    for f,old,new in edits:
        s=open('/repo/'+f,newline='').read()
        crlf='\r\n' in s
        if crlf: old,new=old.replace('\n','\r\n'),new.replace('\n','\r\n')
        assert s.count(old)==1,(msg,f,s.count(old),old)
        open('/repo/'+f,'w',newline='').write(s.replace(old,new))
    fs=sorted({e[0] for e in edits})
    o=subprocess.run("gofmt -l "+" ".join(fs),shell=True,cwd='/repo',stdout=subprocess.PIPE,text=True).stdout
    r=subprocess.run("go build ./... && go test ./... 2>&1 | grep -v 'no test files'",shell=True,cwd='/repo',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if 'FAIL' in r.stdout or r.returncode: print(r.stdout); subprocess.run("git checkout -- .",shell=True,cwd='/repo'); raise SystemExit("failed "+msg)
    subprocess.run(["git","commit","-qam",msg],cwd='/repo',check=True)
    h=subprocess.run("git rev-parse --short HEAD",shell=True,cwd='/repo',stdout=subprocess.PIPE,text=True).stdout.strip()
    print(h,msg,"GOFMT:"+o if o else "")
