"""mkseed.py FILE...: confirms planted bugs in a scratch copy and writes /verif/seeded/<id>/.
FILE is a python file defining SEEDS = [dict(id, prop, edits=[(path, old, new)...], needs, breaks, demo=<body of main>)]."""
import sys, os, subprocess, json, shutil
SC = '/tmp/sc'; V = '/verif/seeded'
PRE = r'''// exit status 0: the property holds for this case
#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/event.hpp>
#include <bnl/http3/server/connection.hpp>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
using namespace bnl;
using namespace bnl::http3;
#define CHECK(x) do { if (!(x)) { std::printf("broken: %s\n", #x); return 1; } } while (0)
static base::buffer mk(const std::string &s) { base::buffer b(s.size()); if (!s.empty()) std::memcpy(b.data(), s.data(), s.size()); return b; }
static std::string str(const base::buffer &b) { return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }
static std::string str(const base::buffers &b) { std::string s; for (size_t i = 0; i < b.size(); i++) s += static_cast<char>(b[i]); return s; }
template<size_t N> static std::string S(const char (&s)[N]) { return std::string(s, N - 1); }
'''
SH = '''#!/bin/bash
# run with cwd /repo after the build: 0 when the property holds, nonzero otherwise
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
P=/opt/vp/deps
g++ -std=c++17 -g -w %s-include $P/compat/compat.hpp -DXXH_INLINE_ALL -I$P/outcome -I$P/xxhash \\
  $(for m in base http3 log; do echo -I/repo/bnl/$m/include -I/repo/_build/bnl/$m/include; done) \\
  "$D/demo.cpp" %s/repo/_build/bnl/http3/lib/libbnl-http3.a /repo/_build/bnl/log/lib/libbnl-log.a /repo/_build/bnl/base/lib/libbnl-base.a -lfmt -o "$T/demo"
timeout 60 "$T/demo"
'''
def ns(cmd, **k): return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (SC, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']; rc = 0
    subprocess.run(['rsync', '-a', '--delete', '/repo/', SC + '/']) if shutil.which('rsync') else (shutil.rmtree(SC, True), subprocess.run(['cp', '-a', '/repo', SC]))
    only = None
    for f in sys.argv[1:]:
        g = {}; exec(open(f).read(), g)
        for s in g['SEEDS']:
            d = os.path.join(V, s['id'])
            if os.path.exists(d + '/meta.json') and not s.get('redo'): continue
            w = '/tmp/seeds/' + s['id']; shutil.rmtree(w, True); os.makedirs(w)
            ok = True
            for p, o, n in s['edits']:
                fn = SC + '/bnl/' + p; t = open(fn).read()
                if t.count(o) != 1: print(s['id'], 'EDIT does not match once:', p, t.count(o)); ok = False; break
                open(fn, 'w').write(t.replace(o, n))
            if ok:
                diff = subprocess.run(['git', '-C', SC, 'diff'], stdout=subprocess.PIPE, text=True).stdout
                open(w + '/patch.diff', 'w').write(diff)
                json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(w + '/meta.json', 'w'), indent=1)
                open(w + '/demo.cpp', 'w').write(PRE + s.get('pre', '') + 'int main()\n{\n' + s['demo'].strip('\n') + '\n  return 0;\n}\n')
                flags = s.get('flags', '')
                open(w + '/demo.sh', 'w').write(SH % (flags and flags + ' ', s.get('srcs', '') and s['srcs'] + ' ')); os.chmod(w + '/demo.sh', 0o755)
                t = ns('bash /opt/vp/test.sh /tmp/seeds/out.json')
                r = json.load(open('/tmp/seeds/out.json'))
                lost = [x for x in base if x not in r['passed']]
                if lost: print(s['id'], 'TESTS fail:', lost, t.stdout[-800:] if len(lost) == 36 else ''); ok = False
                else:
                    x = ns('bash %s/demo.sh' % w)
                    if x.returncode == 0: print(s['id'], 'DEMO does not fail with the patch'); ok = False
                    with_ = x.stdout.strip().split('\n')[-1][:200]
            subprocess.run(['git', '-C', SC, 'checkout', '-q', '--', '.'])
            if ok:
                ns('bash /opt/vp/build.sh')
                x = ns('bash %s/demo.sh' % w)
                if x.returncode: print(s['id'], 'DEMO fails on the unchanged tree', x.stdout[-1500:]); ok = False
            if ok:
                shutil.rmtree(d, True); shutil.copytree(w, d); print(s['id'], 'kept:', with_)
            rc |= not ok
    sys.exit(rc)
main()
