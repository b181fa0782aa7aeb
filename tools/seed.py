# seed.py ID PROP PKG FILE NEEDS BREAKS  (stdin: python edits on s, then line '=====' then Go demo body)
import sys,subprocess
i,prop,pkg,f,needs,breaks=sys.argv[1:7]
code,demo=sys.stdin.read().split('=====\n')
subprocess.run("rm -rf /tmp/sw; cp -a /repo /tmp/sw",shell=True)
p='/tmp/sw/'+f; s=open(p).read(); o=s
ns={'s':s}; exec(code,ns); s=ns['s']; assert s!=o,'no change'
open(p,'w').write(s)
open('/tmp/demo_test.go','w').write(demo)
subprocess.run(["bash","/verif/tools/seed.sh","new",i,prop,pkg,needs,breaks],cwd="/tmp")
