"""mk(id, file, old, new): writes seeded/<id>/patch.diff for a textual change of /repo and leaves /repo as it was."""
import json, os, subprocess
def mk(i, subs, prop, needs, what):
    os.makedirs(f'/verif/seeded/{i}', exist_ok=True)
    assert subprocess.run(['git','-C','/repo','status','--porcelain','-uno'],capture_output=True,text=True).stdout == ''
    try:
        for f, a, b in subs:
            p='/repo/'+f; t=open(p).read(); assert t.count(a)==1,(i,f,t.count(a),a); open(p,'w').write(t.replace(a,b))
        d=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        open(f'/verif/seeded/{i}/patch.diff','w').write(d)
    finally: subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
    if not os.path.exists(f'/verif/seeded/{i}/demo.sh'): open(f'/verif/seeded/{i}/demo.sh','w').write('true\n')
