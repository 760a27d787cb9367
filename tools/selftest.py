#!/usr/bin/env python3
# setup_cmd: checks that the tools are there and that the engine works.
import json, os, shutil, subprocess, sys, tempfile
R = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
os.makedirs(R + '/evidence', exist_ok=True)
os.makedirs(R + '/.build', exist_ok=True)
d = tempfile.mkdtemp(dir=R + '/.build')
try:
    b = d + '/selftest'
    subprocess.run(['clang++', '-std=c++17', '-O0', '-w', '-fsanitize=address,undefined', '-I' + R + '/engine', R + '/tools/selftest.cpp', '-o', b], check=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    for test, want in (('sum', 1), ('crash', 1), ('fine', 0)):
        out = subprocess.run([b, '--only', test, '--cases', '3000', '--workers', '2', '--tmp', d, '--out', d + '/o.json', '--replay-out', d + '/r'], env=env, stdout=subprocess.PIPE, text=True)
        assert out.returncode == want, (test, out.returncode, out.stdout)
        rep = json.load(open(d + '/o.json'))
        assert rep['evaluations'] > 0
        if want:
            assert subprocess.run([b, '--replay', d + '/r', '--tmp', d], env=env, stdout=subprocess.DEVNULL).returncode == 1, test
        if test == 'sum':
            assert 'sum 800' in out.stdout, out.stdout
    print('the engine works')
finally:
    shutil.rmtree(d, ignore_errors=True)
