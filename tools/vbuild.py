"""Builds a harness from /repo's working tree, the stand-in libraries and the harness sources, with ninja."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CXX = '/usr/bin/clang++'

UB = ('-fsanitize=address,undefined -fno-sanitize=vptr,null,alignment,object-size,function '
      '-fsanitize-recover=undefined')
FLAVORS = {
    'asan': '-O0 -g1 ' + UB,
    'asan1': '-O1 -g1 ' + UB,
    'tsan': '-O1 -g1 -fsanitize=thread',
    'plain': '-O1 -g1',
}
NATIVE = ['bcd_utils', 'bin_utils', 'common_utils', 'crc16', 'expression_evaluator', 'file_utils', 'modbus_base',
          'serial_exc']


def known():
    with open(os.path.join(VERIF, 'tools', 'known_src.txt')) as f:
        return set(l.strip() for l in f)


def needs_wblib(path):
    with open(path, errors='replace') as f:
        return 'wblib/' in f.read()


def sources(group):
    """Sources of /repo for a group. Files that are new since the pinned commit are always taken."""
    every = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    kn = known()
    res = []
    for p in every:
        rel = os.path.relpath(p, REPO)
        if rel in ('src/main.cpp', 'src/devices/dlms_device.cpp'):
            continue
        new = rel not in kn
        base = os.path.basename(p)[:-4]
        if group == 'native':
            take = rel.count('/') == 1 and base in NATIVE or new and not needs_wblib(p)
        elif group == 'core':      # everything but RPC and the configuration editor's schema generators
            take = new or not ('/rpc/' in rel and base not in ('rpc_config',)) and base not in (
                'confed_config_generator', 'confed_json_generator', 'files_watcher')
        elif group == 'ports':
            take = new or rel.startswith('src/port/') or base in NATIVE + ['log', 'modbus_common', 'serial_device',
                                                                          'register', 'register_value']
        else:
            take = True
        if take:
            res.append(p)
    return res


def build(harness, srcs, flavor, group, shim, libs='', extra_flags=''):
    """Returns the path of the program, or raises RuntimeError."""
    out = os.path.join(VERIF, 'build', 'obj-' + flavor + ('-x' + format(abs(hash_str(extra_flags)), 'x')[:6] if extra_flags else ''))
    os.makedirs(out, exist_ok=True)
    flags = '%s %s -fno-omit-frame-pointer -w -std=c++20' % (FLAVORS[flavor], extra_flags)
    inc = '-I%s/src -I%s/shim/include -I%s/shim/include/gurux -I%s/shim/include/wblib -I%s/harness' % (
        REPO, VERIF, VERIF, VERIF, VERIF)
    inc += ' -DWBMQTT_COMMIT="x" -DWBMQTT_VERSION="x"'
    repo_src = sources(group)
    # NDEBUG as in the release build of the project
    hs = [os.path.join(VERIF, 'harness', s) for s in srcs] + [os.path.join(VERIF, 'harness', 'mon.cpp')]
    ss = []
    if shim:
        ss = [os.path.join(VERIF, 'shim/src', s) for s in ('json.cpp', 'json_utils.cpp', 'shim.cpp', 'dlms_stub.cpp')]
    pch = os.path.join(VERIF, 'harness', 'pch.h' if shim else 'pch_native.h')
    tag = 's' if shim else 'n'
    prog = os.path.join(out, harness)
    lines = [
        'builddir = ' + out,
        'flags = -DNDEBUG %s %s' % (flags, inc),
        'rule cc', '  command = %s $flags -include-pch %s/pch-%s.pch -MMD -MF $out.d -c $in -o $out' % (CXX, out, tag),
        '  depfile = $out.d', '  deps = gcc',
        'rule pch', '  command = %s $flags -fpch-instantiate-templates -x c++-header -MMD -MF $out.d $in -o $out' % CXX,
        '  depfile = $out.d', '  deps = gcc',
        'rule ar', '  command = rm -f $out && ar rcs $out $in',
        'rule link', '  command = %s $flags $in -o $out %s -lpthread' % (CXX, libs),
        'build %s/pch-%s.pch: pch %s' % (out, tag, pch),
    ]

    def obj(p):
        return '%s/%s-%s.o' % (out, tag, os.path.relpath(p, '/').replace('/', '_'))
    for p in repo_src + hs + ss:
        lines.append('build %s: cc %s | %s/pch-%s.pch' % (obj(p), p, out, tag))
    lib = '%s/lib-%s-%s.a' % (out, tag, harness)
    lines.append('build %s: ar %s' % (lib, ' '.join(obj(p) for p in repo_src + ss)))
    lines.append('build %s: link %s %s' % (prog, ' '.join(obj(p) for p in hs), lib))
    nf = '%s/%s.ninja' % (out, harness)
    text = '\n'.join(lines) + '\n'
    if not os.path.exists(nf) or open(nf).read() != text:
        with open(nf, 'w') as f:
            f.write(text)
    with open(os.path.join(out, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drop_stale(nf, out)
        r = subprocess.run(['ninja', '-f', nf, prog], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError('build failed\n' + r.stdout[-6000:])
        record(nf, out)
    return prog


HASHES = {}


def content(path):
    if path not in HASHES:
        try:
            with open(path, 'rb') as f:
                HASHES[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            HASHES[path] = ''
    return HASHES[path]


def deps(nf, out):
    r = subprocess.run(['ninja', '-f', nf, '-t', 'deps'], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    cur, res = None, {}
    for l in r.stdout.split('\n'):
        if l.startswith('    '):
            d = l.strip()
            if not d.startswith('/usr/') and d.startswith('/') and not d.endswith('.pch'):
                res[cur].append(d)
        elif ': #deps' in l:
            cur = l.split(': #deps')[0]
            res[cur] = []
    return {o: hashlib.sha1(' '.join(content(d) for d in sorted(ds)).encode()).hexdigest() for o, ds in res.items()}


def drop_stale(nf, out):
    """Removes objects whose sources have other contents than when they were made, whatever their times say."""
    try:
        with open(os.path.join(out, 'objhash.json')) as f:
            had = json.load(f)
    except (OSError, ValueError):
        return
    for o, h in deps(nf, out).items():
        if o in had and had[o][0] != h and os.path.exists(o) and os.stat(o).st_mtime_ns == had[o][1]:
            os.unlink(o)


def record(nf, out):
    path = os.path.join(out, 'objhash.json')
    try:
        with open(path) as f:
            had = json.load(f)
    except (OSError, ValueError):
        had = {}
    for o, h in deps(nf, out).items():
        if os.path.exists(o):
            had[o] = [h, os.stat(o).st_mtime_ns]
    with open(path + '.tmp', 'w') as f:
        json.dump(had, f)
    os.replace(path + '.tmp', path)


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0xffffffff
    return h


def templates_dir():
    """Renders the jinja templates of /repo like its Makefile does; returns the folder."""
    out = os.path.join(VERIF, 'build', 'templates')
    os.makedirs(out, exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor

    def one(p):
        dst = os.path.join(out, os.path.basename(p)[:-len('.jinja')])
        if os.path.exists(dst) and os.path.getmtime(dst) > max(os.path.getmtime(q) for q in glob.glob(REPO + '/templates/*.jinja')):
            return
        r = subprocess.run(['j2', '-o', dst + '.tmp', os.path.basename(p)], cwd=REPO + '/templates',
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError('j2 failed: ' + r.stdout)
        os.replace(dst + '.tmp', dst)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, glob.glob(REPO + '/templates/*.json.jinja')))
    return out
