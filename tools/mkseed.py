import sys,os,subprocess,json,shutil,importlib.util,re
SB='/tmp/sb'
def sh(c,cwd=SB,t=600):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t); return r.returncode,r.stdout+r.stderr
def build():
    return sh("cmake -S %s -B %s/_b -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Release '-DCMAKE_CXX_FLAGS=-include cstdint -include algorithm' >/dev/null && ninja -C %s/_b"%(SB,SB,SB),t=1200)
def main(specfile, only=None):
    sp=importlib.util.spec_from_file_location('s',specfile); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.SEEDS:
        if only and not re.search(only,s['id']): continue
        d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
        sh('git checkout -- . && git clean -fdq src include'); sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
        open(d+'/demo.cpp','w').write(s['demo'])
        open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -Iinclude -include cstdint -include algorithm "$d/demo.cpp" %s -o "$t/demo" -pthread || exit 3
timeout 60 "$t/demo"
''' % ' '.join('src/%s.cxx'%x for x in s.get('src',['Serie'])))
        os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        rc0,o0=sh('bash %s/demo.sh'%d)
        ok=True
        for f,a,b in s['edits']:
            t=open(SB+'/'+f).read()
            if t.count(a)!=1: print(s['id'],'EDIT MATCHES',t.count(a),f); ok=False; break
            open(SB+'/'+f,'w').write(t.replace(a,b))
        if not ok: continue
        rc,diff=sh('git diff'); open(d+'/patch.diff','w').write(diff)
        rc1,o1=sh('bash %s/demo.sh'%d)
        if '--nobuild' in sys.argv: bt='skipped'
        else:
            rb,ob=build()
            rt,ot=sh('ctest --test-dir %s/_b -j8 --timeout 300 | tail -8'%SB) if rb==0 else (1,ob[-800:])
            bt='ok' if rb==0 and '100% tests passed' in ot else 'BUILD/TEST FAIL '+ot[-600:]
        rcc,oc=sh('VERIF_REPO=%s python3-vt /verif/check.py %s --tier quick'%(SB,s['prop']),cwd='/verif',t=900)
        v=[l for l in oc.splitlines() if l.startswith('VIOLATION') or l.startswith('ERROR')or 'undecided' in l]
        print('%-10s demo %s/%s %s %s check rc=%s %s'%(s['id'],rc0,rc1,'' if (rc0==0 and rc1) else 'DEMO-BAD '+o0[-300:]+o1[-300:],bt,rcc,' | '.join(x[:160] for x in v[:3]) or oc[-500:]),flush=True)
    sh('git checkout -- .')
main(sys.argv[1], sys.argv[2] if len(sys.argv)>2 and sys.argv[2][:2]!='--' else None)
