import os
import re
import subprocess
import tempfile
from . import ll
from .engine import Program

FILES = ['string_utils', 'conf_parser', 'file_utils', 'http_utils', 'json_utils', 'log', 'router', 'wayuu_log', 'ws', 'main']
CLANG = ['clang-18', '-S', '-emit-llvm', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fPIC', '-std=gnu99', '-DWAYUU_DIST',
         '-D__NO_CTYPE', '-fno-builtin', '-w']


def sources(repo):
    """C files of the program: every .c file at the top of the repository"""
    return sorted(f[:-2] for f in os.listdir(repo) if f.endswith('.c'))


def compile_all(repo='/repo', out=None):
    out = out or tempfile.mkdtemp(prefix='wvc')
    mods = []
    ps = []
    for b in sources(repo):
        o = os.path.join(out, b + '.ll')
        ps.append((b, o, subprocess.Popen(CLANG + [os.path.join(repo, b + '.c'), '-o', o], stderr=subprocess.PIPE)))
    for b, o, p in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError('clang failed on %s.c: %s' % (b, err.decode()[-2000:]))
    for b, o, p in ps:
        with open(o) as f:
            mods.append(ll.parse_module(f.read(), b))
    p = Program(mods)
    p.server = server_line(repo)
    return p


def server_line(repo):
    """the server header as the headers define it"""
    src = '#include "http_utils.h"\nWAYUU_SERVER_IS WAYUU_HTTP_SERVER_STRING\n'
    r = subprocess.run(['clang-18', '-E', '-P', '-I', repo, '-x', 'c', '-'], input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    for l in r.stdout.decode(errors='replace').splitlines():
        if l.startswith('WAYUU_SERVER_IS'):
            parts = re.findall(r'"((?:[^"\\]|\\.)*)"', l)
            if parts:
                return ''.join(parts).encode().decode('unicode_escape').encode('latin1')
    return b'Server: WAYUU/1.5.0\r\n'
