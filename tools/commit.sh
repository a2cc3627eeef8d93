#!/bin/bash
cd /verif && python3 tools/props_src.py && python3 tools/gen_manifest.py && python3 tools/findings.py && python3 tools/gen_design.py && git add -A && git commit -qm "$1" && git log --oneline | head -1
