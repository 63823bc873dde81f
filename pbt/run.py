"""python3-vt run.py C01 [--replay FILE]"""
import sys

import env  # noqa: F401
import engine

if __name__ == "__main__":
    check = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(engine.replay(check, sys.argv[3]))
    sys.exit(engine.main(check))
