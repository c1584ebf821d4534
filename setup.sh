#!/bin/bash
# Unpack the vendored Hypothesis wheels for /opt/venv's Python (offline; no installation outside /verif).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import glob, os, shutil, zipfile
shutil.rmtree(".deps", ignore_errors=True)
os.makedirs(".deps")
for w in glob.glob("vendor/*.whl"):
    zipfile.ZipFile(w).extractall(".deps")
P
echo "setup ok"
