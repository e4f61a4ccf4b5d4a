"""setup_cmd: everything a check needs is present and the extension builds."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))

from vt import build                                          # noqa: E402


def main():
    d = tempfile.mkdtemp(prefix="vt_setup_")
    try:
        os.environ["VT_EXT"] = build.build(os.path.join(d, "ext"))
        build.build(os.path.join(d, "extasan"), True)
        from vt import sut
        sut.load()
        import hypothesis
        import mpmath
        print("ready: hypothesis %s, mpmath %s" % (hypothesis.__version__,
                                                   mpmath.__version__))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
