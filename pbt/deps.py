"""Make hypothesis importable, offline.

The wheel is unpacked into /verif/.deps (git-ignored).  Runs may start from a
fresh checkout, so every check calls `ensure()`; it is idempotent and safe to
run concurrently.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
DEPS = os.path.join(os.path.dirname(HERE), ".deps")
WHEELS = "/opt/veriftools/wheels"
NEEDED = ("hypothesis-*-cp312-cp312-manylinux*x86_64.whl", "sortedcontainers-*.whl")


def ensure():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        os.makedirs(os.path.dirname(DEPS), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=os.path.dirname(DEPS))
        found = False
        for pat in NEEDED:
            for whl in sorted(glob.glob(os.path.join(WHEELS, pat)))[-1:]:
                found = True
                with zipfile.ZipFile(whl) as z:
                    z.extractall(tmp)
        if found:
            try:
                os.rename(tmp, DEPS)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        sys.path.append(DEPS)
    else:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__, hypothesis.__file__)
