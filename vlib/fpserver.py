"""Fingerprints of specs read from stdin, in another process (another hash seed)."""
import json, sys
sys.path[:0] = [p for p in json.loads(sys.argv[1])]
from hamilton.caching import fingerprinting
from vlib import fpvals
sys.stdout.write("ready\n")
sys.stdout.flush()
for line in sys.stdin:
    specs = json.loads(line)
    sys.stdout.write(json.dumps([fingerprinting.hash_value(fpvals.mk(s)) for s in specs]) + "\n")
    sys.stdout.flush()
