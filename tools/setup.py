"""Checks that the tools the framework needs are present; nothing is installed
and nothing is prebuilt: every check builds what it needs from /repo."""
import shutil, os, sys
need = ["g++-13", "clang++-18", "java", "python3"]
missing = [n for n in need if not shutil.which(n)]
for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/repo/include/fitoria"):
    if not os.path.exists(p): missing.append(p)
if missing:
    print("missing:", missing); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok")
