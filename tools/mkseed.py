"""mkseed.py ID PROPERTY FILE  : reads a spec on stdin:  python dict {needs, breaks, edits:[(file,old,new)], demo: C++ text}"""
import sys, os, subprocess, json, shutil, tempfile
sid, prop = sys.argv[1:3]
spec = eval(sys.stdin.read())
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='mkseed')
subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', w + '/r'])
for f, o, n in spec['edits']:
    p = w + '/r/' + f
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.cc', 'w').write(spec['demo'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds on this input; nonzero: broken
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/flckdemo.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
R=$(pwd)
export FLCKDIRPATH=$D FLCKFILENAME=demo.shm %s
CF=""; [ -f "$R/config.h" ] && CF="-DHAVE_CONFIG_H -DHAVE_GETTID -I$R"
g++ -std=gnu++17 -w -O1 $CF -I"$R/lib" "$H/demo.cc" -o "$D/demo" -L"$R/lib/.libs" -lfullock -lpthread -lrt || exit 3
cd "$D" || exit 2
LD_LIBRARY_PATH="$R/lib/.libs" timeout %d "$D/demo"
rc=$?
[ $rc = 0 ] || echo "demo: broken (rc=$rc)"
exit $rc
''' % (spec.get('env', ''), spec.get('timeout', 60)))
os.chmod(d + '/demo.sh', 0o755)
shutil.rmtree(w)
print(sid, 'written')
