"""Builds the facts driver and warms the dependency build (the checks do the same when they find nothing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dd import facts
try: print(facts.build_facts())
except facts.FactsError as e: print("setup: facts not built:", str(e)[:500])
