#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: confirm planted bugs and keep them in /verif/seeded.

SPEC.py defines SEEDS, a list of dicts: id, prop, edits [(file, old, new)], demo
(Go declarations and a main function; the header is added), needs, breaks.
Every bug is applied to a scratch copy of /repo, which must build, pass its tests
and fail the demonstration; the unchanged copy must pass it. Then the checks named
in 'also' and the property's own are run against the copy (CHECK=0 skips that).
"""
import json, os, subprocess, sys, shutil, tempfile, re

BASE = '80d6511'
REPO = '/repo'
OUT = os.environ.get('OUT','/verif/seeded')

DEMO_SH = '''#!/bin/bash
# Builds demo.go together with the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
cat >"$tmp/go.mod" <<EOF
module demo

go 1.22

require (
	github.com/go-restruct/restruct v0.0.0
	github.com/pkg/errors v0.8.1 // indirect
)

replace github.com/go-restruct/restruct => $repo
EOF
cp "$repo/go.sum" "$tmp/go.sum" && cp "$here/demo.go" "$tmp/main.go" || exit 2
cd "$tmp" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build %s-o "$tmp/demo" . || exit 2
timeout 120 "$tmp/demo"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def original_lines(tree, patch):
    """Number of removed lines that the original repository had."""
    n, f, line = 0, None, 0
    for l in patch.splitlines():
        if l.startswith('--- '):
            f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            line = int(m.group(1)); continue
        if l.startswith('+') or l.startswith('\\') or l.startswith('diff') or l.startswith('index') or l.startswith('---'):
            continue
        if l.startswith('-'):
            b = sh(f'git blame -s -L {line},{line} HEAD -- {f}', REPO).stdout
            if b.startswith('^') or b.startswith(BASE):
                n += 1
        line += 1
    return n

HELP = """
func fail(format string, a ...interface{}) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}
"""

def demo_source(body):
    if 'fail(' in body and 'func fail' not in body:
        body += HELP
    imports = {'fmt.': 'fmt', 'os.': 'os', 'bytes.': 'bytes', 'binary.': 'encoding/binary', 'reflect.': 'reflect', 'math.': 'math', 'sync.': 'sync', 'strings.': 'strings', 'errors.': 'errors', 'io.': 'io', 'time.': 'time', 'runtime.': 'runtime', 'debug.': 'runtime/debug', 'unsafe.': 'unsafe',
               'restruct.': 'github.com/go-restruct/restruct', 'expr.': 'github.com/go-restruct/restruct/expr', 'png.': 'github.com/go-restruct/restruct/formats/png'}
    used = sorted(p for k, p in imports.items() if re.search(r'(?<![\w.])' + re.escape(k), body))
    std = [p for p in used if '.' not in p.split('/')[0]]
    ext = [p for p in used if p not in std]
    return 'package main\n\nimport (\n' + ''.join(f'\t"{p}"\n' for p in std) + ('\n' if ext else '') + ''.join(f'\t"{p}"\n' for p in ext) + ')\n\n' + body.strip() + '\n'

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    for s in spec['SEEDS']:
        if want and s['id'] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix='seed-')
        try:
            one(s, tmp)
        finally:
            shutil.rmtree(tmp)

def one(s, tmp):
    tree = tmp + '/tree'
    subprocess.check_call(['cp', '-a', REPO, tree])
    def bad(why, out=''):
        print(f"{s['id']}: REJECTED: {why}\n{out[-1500:]}", flush=True)
    for f, old, new in s['edits']:
        p = f'{tree}/{f}'
        t = open(p).read()
        if t.count(old) != 1:
            return bad(f'{f}: {t.count(old)} matches of {old!r}')
        open(p, 'w').write(t.replace(old, new))
    sh('gofmt -w ' + ' '.join({f for f, _, _ in s['edits']}), tree)
    patch = sh('git diff', tree).stdout
    if os.environ.get('ANY') != '1' and not original_lines(tree, patch):
        return bad('changes no original line', patch)
    r = sh('go build ./... && go vet . ./expr ./formats/png', tree)
    if r.returncode:
        return bad('does not build', r.stdout)
    r = sh(f'VP_REPO={tree} go test -count=1 ./...', tree)
    if r.returncode:
        return bad('fails the tests', r.stdout)
    d = tmp + '/demo'
    os.mkdir(d)
    open(d + '/demo.sh', 'w').write(DEMO_SH % ('-race ' if s.get('race') else ''))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.go', 'w').write(demo_source(s['demo']))
    sh('gofmt -w demo.go', d)
    r = sh(f'bash {d}/demo.sh', REPO)
    if r.returncode:
        return bad('demonstration fails on the unchanged tree', r.stdout)
    r2 = sh(f'bash {d}/demo.sh', tree)
    if r2.returncode == 0 or r2.returncode == 2 and 'cannot' in r2.stdout:
        return bad('demonstration passes with the bug', r2.stdout)
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(f"{OUT}/{s['id']}", ignore_errors=True)
    shutil.copytree(d, f"{OUT}/{s['id']}")
    res = []
    if os.environ.get('CHECK') != '0':
        for c in [s['prop']] + s.get('also', []):
            r = sh(f'VERIF_REPO={tree} VERIF_TIER=quick bash /verif/check.sh {c}', '/verif')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            msg = [l for l in r.stdout.splitlines() if l.startswith('case')]
            wall = re.search(r'wall=(\S+)', r.stdout)
            res.append(f"{c}: {'caught' if v and r.returncode == 1 else 'MISSED rc=%d' % r.returncode} {wall.group(1) if wall else ''} {msg[0][:160] if msg else ''}")
    print(f"{s['id']} ok; demo: {r2.stdout.strip()[:100]!r}\n    " + '\n    '.join(res), flush=True)

main()
