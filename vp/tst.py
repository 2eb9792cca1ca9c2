import sys; sys.path.insert(0,'/verif/vp')
import extract,subprocess,os
w=extract.weave(os.environ.get('VP_REPO','/repo'),sys.argv[1])
open('/tmp/w/tt.rs','w').write(w.text)
print(w.uncontracted)
r=subprocess.run(['verus','/tmp/w/tt.rs']+sys.argv[2:],capture_output=True,text=True)
print((r.stdout+r.stderr)[:9000])
