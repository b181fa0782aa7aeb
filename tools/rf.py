# usage: rf.py name prop[,prop] file <<< python code operating on s ; runs checks on modified copy
import sys,subprocess,os
name,props,f=sys.argv[1:4]
code=sys.stdin.read()
subprocess.run("rm -rf /tmp/rfx; cp -a /repo /tmp/rfx",shell=True)
p='/tmp/rfx/'+f
s=open(p).read(); o=s
ns={'s':s}
exec(code,ns); s=ns['s']
assert s!=o,"no change"
open(p,'w').write(s)
subprocess.run("mkdir -p /tmp/rf/%s; cd /tmp/rfx && git diff > /tmp/rf/%s/patch.diff; echo %s > /tmp/rf/%s/props"%(name,name,props,name),shell=True)
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
r=subprocess.run("cd /tmp/rfx && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v ^ok | head -8",shell=True,capture_output=True,text=True,env=env)
if r.stdout.strip(): print("TESTS:",r.stdout)
for c in props.split(','):
    r=subprocess.run(["timeout","900","/tmp/gtcheck","-prop",c,"-repo","/tmp/rfx","-verif","/tmp/gtev"],capture_output=True,text=True)
    print(name,c,"exit",r.returncode, "\n".join(l[:300] for l in (r.stdout+r.stderr).splitlines() if 'VIOLATION' not in l) if r.returncode else "")
