#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree. Objects are cached by the content of
everything that goes into them, so an edit anywhere in /repo is always seen."""
import hashlib, os, subprocess, sys, fcntl, glob, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
B = os.environ.get('SIM_BUILD', os.path.join(V, '.build'))
CXX = 'clang++'
for c in ('clang++-18', 'clang++'):
    if subprocess.run(['which', c], capture_output=True).returncode == 0:
        CXX = c; break

def files(*roots):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            for f in fs:
                out.append(os.path.join(d, f))
    return sorted(out)
def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def main():
    os.makedirs(B + '/obj', exist_ok=True)
    os.makedirs(B + '/inc/cuttlefish', exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    exp = B + '/inc/cuttlefish/Export.h'
    txt = '#pragma once\n#define CUTTLEFISH_EXPORT\n'
    if not os.path.exists(exp) or open(exp).read() != txt: open(exp, 'w').write(txt)
    L, T = REPO + '/lib', REPO + '/tool'
    rsrc = [f for f in files(L + '/src') if f.endswith('.cpp')]
    rhdr = [f for f in files(L + '/src', L + '/include') if not f.endswith('.cpp')]
    tsrc = [f for f in files(T) if f.endswith('.cpp') and '/test/' not in f]
    thdr = [f for f in files(T) if f.endswith('.h') and '/test/' not in f]
    inc = ['-I' + B + '/inc', '-I' + L + '/include', '-I' + L + '/src', '-I' + L + '/glm']
    base = [CXX, '-std=gnu++14', '-DNDEBUG', '-DCUTTLEFISH_ISPC=0', '-O1', '-g', '-fPIC', '-fno-strict-aliasing', '-faligned-new', '-fsanitize=thread', '-w']
    base += os.environ.get('SIM_CXXFLAGS', '').split()
    jobs = []
    def job(src, cmd, deps):
        o = B + '/obj/' + os.path.basename(src) + '.' + digest([src] + deps, ' '.join(cmd)) + '.o'
        jobs.append((src, cmd + ['-c', src, '-o'], o)); return o
    robj = [job(s, base + inc, rhdr) for s in rsrc]
    robj += [job(s, base + inc + ['-I' + T, '-Dmain=cuttlefish_tool_main'], rhdr + thdr) for s in tsrc]
    S = V + '/sim'
    hdeps = [f for f in files(S) if f.endswith(('.h', '.inc'))]
    hinc = ['-I' + B + '/inc', '-I' + L + '/include', '-I' + S]
    pub = [f for f in files(L + '/include')]
    hobj = []
    for s in sorted(glob.glob(S + '/*.cpp')):
        rt = os.path.basename(s).startswith('rt_') or os.path.basename(s) == 'driver.cpp'
        hobj.append(job(s, [CXX, '-std=c++17', '-O1', '-g', '-fPIC', '-Wall', '-Wno-unused-function'] + hinc, hdeps + ([] if rt else pub)))
    todo = [j for j in jobs if not os.path.exists(j[2])]
    def run(j):
        tmp = j[2] + '.tmp%d' % os.getpid()
        r = subprocess.run(j[1] + [tmp], capture_output=True, text=True)
        if r.returncode == 0: os.rename(tmp, j[2])
        return j, r
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(8) as ex:
        bad = 0
        for j, r in ex.map(run, todo):
            if r.returncode or r.stderr.strip(): sys.stderr.write(r.stderr)
            bad |= r.returncode
        if bad: sys.exit('build failed')
    wraps = [l.strip() for l in open(S + '/fi_wraps.ld') if l.strip()]
    wraps += ['--wrap=_ZNSi4readEPcl', '--wrap=_ZNSo5writeEPKcl']      # std::istream::read, std::ostream::write
    cmd = [CXX, '-rdynamic', '-no-pie'] + robj + hobj + ['-Wl,' + w if w.startswith('--') else w for w in wraps] + ['-lfreeimage', '-lpthread', '-ldl']
    exe = B + '/sim.' + digest(robj + hobj, ' '.join(cmd))
    if not os.path.exists(exe):
        r = subprocess.run(cmd + ['-o', exe + '.tmp'], capture_output=True, text=True)
        if r.returncode: sys.exit(r.stderr)
        if r.stderr: sys.stderr.write(r.stderr[:2000])
        os.rename(exe + '.tmp', exe)
    keep = set(o for _, _, o in jobs) | {exe}
    # bound the cache
    old = sorted((f for f in glob.glob(B + '/obj/*') + glob.glob(B + '/sim.*') if f not in keep), key=os.path.getmtime)
    for f in old[:-120]:
        try: os.unlink(f)
        except OSError: pass
    for f in sorted(glob.glob(B + '/sim.*'), key=os.path.getmtime)[:-6]:
        if f != exe: os.unlink(f)
    os.utime(exe)
    print(exe)
main()
