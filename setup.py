#!/usr/bin/env python3
"""Warms the Go build cache: compiles the harness and the router with the race detector."""
import os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__))
e = dict(os.environ)
e.setdefault("HOME", "/root")
e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
t = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for d, pkg in ((os.path.join(H, "harness"), "."), ("/repo", "./cmd/router")):
        r = subprocess.run(["go", "build", "-buildvcs=false", "-race", "-o", os.path.join(t, "x"), pkg], cwd=d, env=e).returncode
        if r:
            sys.exit(r)
finally:
    shutil.rmtree(t, ignore_errors=True)
