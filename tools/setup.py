"""Builds what the checks need and do not take from /repo: the span indexer."""
import sys
sys.path.insert(0, "/verif/lib")
import engine
engine.build_vx()
print("vx:", engine.VX)
