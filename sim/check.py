import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import engine
if __name__ == "__main__":
    rc = engine.main()
    sys.stdout.flush()
    os._exit(rc)
