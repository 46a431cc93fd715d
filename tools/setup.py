"""Checks that the tools are there; the checks build what they need themselves."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tool in ("g++", "java", "javac"):
    if not shutil.which(tool):
        sys.exit("missing " + tool)
os.makedirs(os.path.join(V, "out"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
p = subprocess.run(["javac", "-nowarn", "-cp", "/opt/veriftools/tla/tla2tools.jar",
                    "-d", os.path.join(V, "out", "classes-test"), os.path.join(V, "java", "Real64.java")])
sys.exit(p.returncode)
