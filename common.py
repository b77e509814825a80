"""What check.py and generated.py share."""
import os


class Broken(Exception):
    """The check could not do its work (exit 2)."""


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -buildvcs=false")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e
