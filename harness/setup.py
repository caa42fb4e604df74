"""setup_cmd: builds ripcalc's dependencies, so that a check only builds ripcalc itself."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
print(common.build(release=False), common.build(release=True))
