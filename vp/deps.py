"""Make hypothesis importable under /opt/venv's Python, offline."""
import glob
import os
import sys
import zipfile

WHEELS = "/opt/veriftools/wheels"
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NAMES = ("hypothesis-", "sortedcontainers-")


def ensure():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    here = os.environ.get("VP_HERE") or os.path.dirname(
        os.path.dirname(os.path.abspath(__file__))
    )
    dest = os.path.join(here, ".deps")
    mark = os.path.join(dest, "ok")
    if not os.path.exists(mark):
        scratch = os.environ.get("VP_SCRATCH")
        target = dest if scratch is None else os.path.join(scratch, "deps")
        try:
            for name in NAMES:
                found = sorted(
                    f
                    for tag in ("cp%d%d-" % sys.version_info[:2], "py3-none-any")
                    for f in glob.glob(os.path.join(WHEELS, name + "*.whl"))
                    if tag in os.path.basename(f)
                )
                with zipfile.ZipFile(found[-1]) as z:
                    z.extractall(target)
            open(os.path.join(target, "ok"), "w").close()
            dest = target
        except (OSError, IndexError, zipfile.BadZipFile):
            dest = FALLBACK
    sys.path.append(dest)
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__, hypothesis.__file__)
