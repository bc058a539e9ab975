"""Looks for a concrete failing input when an obligation failed: runs the code of the repository with random inputs against independent oracles.

The outcome never decides a property: it only adds an executed counterexample to a failed proof."""
import glob
import os
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ('fopen fopen64 stat mkdir remove unlink rename recv send close getpeername pthread_mutex_lock pthread_mutex_unlock '
        'socket bind listen accept setsockopt pthread_create startswith').split()


def build(repo, out):
    srcs = sorted(glob.glob(os.path.join(repo, '*.c')))
    cmd = ['clang', '-g', '-O1', '-w', '-std=gnu99', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GNU_SOURCE', '-I', repo, '-o', out]
    cmd += srcs + sorted(glob.glob(os.path.join(HERE, '*.c'))) + ['-Wl,' + ','.join('--wrap=%s' % w for w in WRAP), '-lssl', '-lcrypto', '-lpthread']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if p.returncode:
        return p.stdout.decode(errors='replace')[-600:]
    return None


def search(prop, failures, repo, scratch, seconds):
    """(text of a failing input or None, what was run)"""
    seconds = min(seconds, 60)
    exe = os.path.join(scratch, 'replay-harness')
    err = build(repo, exe)
    if err:
        return None, 'the replay harness does not build against this tree: ' + err
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=4:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')
    ps = []
    base = int(os.environ.get('REPLAY_SEED', '0'))
    for seed in range(base + 1, base + 8):
        d = os.path.join(scratch, 'replay-%d' % seed)
        os.makedirs(d, exist_ok=True)
        o, e = os.path.join(d, 'stdout'), os.path.join(d, 'stderr')
        ps.append((subprocess.Popen([exe, prop, '%d' % max(3, seconds - 10), str(seed), d], stdout=open(o, 'wb'), stderr=open(e, 'wb'), env=env, cwd=d, start_new_session=True), o, e))
    end = time.time() + seconds + 20
    found = None
    while time.time() < end and found is None:
        alive = False
        for p, o, e in ps:
            rc = p.poll()
            if rc is None:
                alive = True
            elif rc != 0 and found is None:
                t = open(o, errors='replace').read()[-6000:]
                if 'FAIL ' + prop in t:
                    t = t[t.index('FAIL ' + prop):]
                    s = open(e, errors='replace').read()
                    i = s.find('ERROR:')
                    found = t[:5000] + ('\n' + s[max(0, i - 20):i + 2500] if i >= 0 else '')
        if not alive:
            break
        time.sleep(0.1)
    for p, o, e in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        p.wait()
    return found, '%d runs of the replay harness with random inputs for %d s' % (len(ps), seconds)


if __name__ == '__main__':
    import sys
    with tempfile.TemporaryDirectory() as t:
        for pr in sys.argv[2:]:
            print(pr, search(pr, [], '/repo', t, float(sys.argv[1])))
