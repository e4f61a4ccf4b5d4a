"""Entry point of the processes that run the code under test."""
import sys

from vt import sut                       # sets sys.path up
from vt import engine

if __name__ == "__main__":
    sut.load()
    {"child": engine.child_main, "replay": engine.replay_child,
     "known": engine.known_child, "meta": engine.meta_child}[sys.argv[1]](
         sys.argv[2:])
