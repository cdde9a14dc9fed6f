#!/usr/bin/env python3
"""Writes copies of the redis and NATS client libraries into .thirdparty, which
harness/go.mod uses in place of the originals. They can run inside of a synctest
bubble and dial an in-memory server. Only third-party code is changed, never neffos:

  radix: a lock that is held over a round trip is one that simulated time sees,
         Dial asks VerifDial for its net.Conn, pools are listed in VerifPools,
         and timers and channels are not kept in process-wide pools
  nats:  timers are not kept in a process-wide pool
"""
import os, shutil, subprocess, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EDITS = {
    "github.com/mediocregopher/radix/v3@v3.8.1": {
        "conn.go": [
            ("netConn, err = dialer.Dial(network, addr)", "if VerifDial != nil {\n\t\t\tnetConn, err = VerifDial(network, addr)\n\t\t} else {\n\t\t\tnetConn, err = dialer.Dial(network, addr)\n\t\t}"),
            ("type dialOpts struct {", "// VerifDial replaces the network.\nvar VerifDial func(network, addr string) (net.Conn, error)\n\n// VerifPool is told about new pools and clusters.\nvar VerifPool func(interface{ Close() error })\n\ntype dialOpts struct {"),
        ],
        "pool.go": [("\tp.put(ioc)\n\n\tp.wg.Add(1)", "\tp.put(ioc)\n\tif VerifPool != nil {\n\t\tVerifPool(p)\n\t}\n\n\tp.wg.Add(1)")],
        "cluster.go": [("\tc.syncEvery(c.co.syncEvery)", "\tif VerifPool != nil {\n\t\tVerifPool(c)\n\t}\n\tc.syncEvery(c.co.syncEvery)")],
        "pubsub.go": [
            ("\tcmdL     sync.Mutex\n", "\tcmdL     verifLock\n"),
            ("cmdResCh:   make(chan error, 1),", "cmdResCh:   make(chan error, 1),\n\t\tcmdL: make(verifLock, 1),"),
            ("type pubSubConn struct {", "// verifLock is a mutex that the simulated clock sees.\ntype verifLock chan struct{}\n\nfunc (l verifLock) Lock()   { l <- struct{}{} }\nfunc (l verifLock) Unlock() { <-l }\n\ntype pubSubConn struct {"),
        ],
        "timer.go": [("\ttimerPool.Put(t)", "\t_ = &timerPool")],
        "pipeliner.go": [("\tpipelinerCmdPool.Put(req)", "\t_ = &pipelinerCmdPool")],
    },
    "github.com/nats-io/nats.go@v1.40.1": {
        "timer.go": [("\ttp.p.Put(t)", "\t_ = &tp.p")],
    },
}


def ensure():
    out = os.path.join(ROOT, ".thirdparty")
    if os.path.exists(out):
        return
    cache = subprocess.run(["go", "env", "GOMODCACHE"], check=True, stdout=subprocess.PIPE, text=True).stdout.strip()
    tmp = tempfile.mkdtemp(prefix=".thirdparty-", dir=ROOT)
    os.chmod(tmp, 0o755)
    for mod, files in EDITS.items():
        src = os.path.join(cache, mod)
        dst = os.path.join(tmp, mod.split("/")[1])
        for d, dirs, names in os.walk(src):
            if d == src:
                dirs[:] = [x for x in dirs if x in ("internal", "resp", "trace", "util", "encoders")]
            to = os.path.normpath(os.path.join(dst, os.path.relpath(d, src)))
            os.makedirs(to, exist_ok=True)
            for n in names:
                if (n.endswith(".go") and not n.endswith("_test.go")) or n == "go.mod":
                    s = open(os.path.join(d, n)).read()
                    for a, b in (files.get(n, []) if d == src else []):
                        if s.count(a) != 1:
                            raise SystemExit("thirdparty: %s %s: %d matches of %r" % (mod, n, s.count(a), a))
                        s = s.replace(a, b)
                    open(os.path.join(to, n), "w").write(s)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp)  # somebody else was faster


if __name__ == "__main__":
    ensure()
