#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes seeded/<id>/ for each bug in SPEC.py after confirming it in a scratch copy.

SPEC.py holds BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)...], demo=python source)].
The demo gets: smf(format, division, tracks), vlq(n), ev(...) helpers, run(*args) -> (code, stdout, stderr), T
(scratch directory) and must raise (assert) if the property is broken.
"""
import os, subprocess, sys, json, shutil, tempfile, importlib.util
REPO='/repo'
SEEDED='/verif/seeded'
ENV=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', HOME='/root')
BASE=subprocess.check_output(['git','-C',REPO,'rev-list','--max-parents=0','HEAD'],text=True).strip()

DEMO_SH='''#!/bin/bash
# exits 0 if the behaviour is right, 1 if not
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
go build -o "$T/midiasm" ./cmd/midiasm || exit 3
REPO=$(pwd) T="$T" python3 "$here/demo.py"
'''
PRELUDE='''import os, subprocess, sys, json, struct
T, REPO = os.environ['T'], os.environ['REPO']

def vlq(n):
    b = [n & 0x7f]
    while n > 0x7f:
        n >>= 7
        b.insert(0, 0x80 | n & 0x7f)
    return bytes(b)

def chunk(tag, data):
    return tag + struct.pack('>I', len(data)) + data

def smf(fmt, division, *tracks):
    """each track is a list of (delta, event bytes)"""
    return chunk(b'MThd', struct.pack('>HHH', fmt, len(tracks), division)) + b''.join(
        chunk(b'MTrk', b''.join(vlq(d) + bytes(e) for d, e in t)) for t in tracks)

def meta(kind, data=b''):
    return bytes([0xff, kind]) + vlq(len(data)) + bytes(data)

EOT = (0, bytes([0xff, 0x2f, 0]))

def write(name, data):
    path = os.path.join(T, name)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return path

def read(name):
    with open(os.path.join(T, name), 'rb') as f:
        return f.read()

def run(*args, **kw):
    p = subprocess.run([T + '/midiasm'] + list(args), cwd=T, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, **kw)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

def gorun(source):
    """runs a Go main package that uses the module in REPO"""
    d = os.path.join(T, 'prog')
    os.makedirs(d, exist_ok=True)
    with open(d + '/main.go', 'w') as f:
        f.write(source)
    with open(d + '/go.mod', 'w') as f:
        f.write('module prog\\n\\ngo 1.22\\n\\nrequire github.com/transcriptaze/midiasm v0.0.0\\n\\nreplace github.com/transcriptaze/midiasm => ' + REPO + '\\n')
    p = subprocess.run(['go', 'build', '-o', T + '/prog.bin', '.'], cwd=d, capture_output=True, text=True)
    if p.returncode:
        print(p.stdout, p.stderr)
        sys.exit(3)
    p = subprocess.run([T + '/prog.bin'], cwd=T, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors='replace', **kw)

def baseline(cwd):
    p=sh(['go','test','-json','-vet=off','-count=1','./...'],cwd)
    ok=set()
    for l in p.stdout.split('\n'):
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('Action')=='pass' and 'Test' in d: ok.add(d['Package']+'::'+d['Test'])
    return ok

def main():
    spec=importlib.util.spec_from_file_location('spec',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only=sys.argv[2:]
    want=None
    for b in m.BUGS:
        if only and b['id'] not in only: continue
        s=tempfile.mkdtemp(prefix='plant-'); w=s+'/repo'
        try:
            subprocess.check_call(['cp','-a',REPO,w])
            if want is None: want=baseline(w)
            bad=None
            for f,old,new in b['edits']:
                t=open(w+'/'+f).read()
                if t.count(old)!=1: bad=f'{f}: {t.count(old)} matches of {old!r}'; break
                open(w+'/'+f,'w').write(t.replace(old,new))
            if bad: print(b['id'],'BAD EDIT',bad); continue
            patch=sh(['git','diff'],w).stdout
            # original lines?
            orig=0
            for f in {e[0] for e in b['edits']}:
                removed=set()
                for l in sh(['git','diff','-U0','--',f],w).stdout.split('\n'):
                    if l.startswith('@@'):
                        a=l.split()[1][1:].split(','); st=int(a[0]); n=int(a[1]) if len(a)>1 else 1
                        removed|=set(range(st,st+n))
                bl=sh(['git','blame','-s','HEAD','--',f],w).stdout.split('\n')
                for i in removed:
                    if bl[i-1].lstrip('^').startswith(BASE[:7]): orig+=1
            p=sh(['go','build','./...'],w)
            if p.returncode: print(b['id'],'BUILD',p.stderr[:600]); continue
            missing=want-baseline(w)
            if missing: print(b['id'],'FAILS TESTS',sorted(missing)[:4]); continue
            d=s+'/demo'; os.mkdir(d)
            open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
            open(d+'/demo.py','w').write(PRELUDE+b['demo'].strip()+'\n')
            c=sh(['bash',d+'/demo.sh'],REPO); x=sh(['bash',d+'/demo.sh'],w)
            if c.returncode!=0 or x.returncode!=1:
                print(b['id'],'DEMO clean',c.returncode,(c.stdout+c.stderr)[-700:],'patched',x.returncode,(x.stdout+x.stderr)[-300:]); continue
            out=SEEDED+'/'+b['id']; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
            for f in ('demo.sh','demo.py'): shutil.copy(d+'/'+f,out)
            open(out+'/patch.diff','w').write(patch)
            json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
            print(b['id'],'ok','' if orig else '*** NO ORIGINAL LINE CHANGED',x.stderr.strip().split('\n')[-1][:150])
        finally:
            shutil.rmtree(s)
main()
