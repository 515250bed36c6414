#!/bin/bash
# developer helper: build IR and the native replay (same flags as ../check)
cd /verif && python3 - <<'P'
import importlib.machinery, importlib.util
l = importlib.machinery.SourceFileLoader("check", "/verif/check")
s = importlib.util.spec_from_loader("check", l); m = importlib.util.module_from_spec(s); l.exec_module(m)
m.build_engine()
print(m.build_harness("harness"))
P
