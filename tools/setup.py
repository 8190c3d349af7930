#!/usr/bin/env python3
"""Sanity check of the tools the checks need (the checks build everything else themselves)."""
import shutil, subprocess, os, sys
for t in ("java", "cargo"):
    if not shutil.which(t) and not os.path.exists("/root/.cargo/bin/" + t):
        sys.exit("missing " + t)
r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", "Lexer.tla"],
                   cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"), stdout=subprocess.PIPE, text=True)
sys.exit(r.returncode)
