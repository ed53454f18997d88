"""builds the IR exporter (cached; each check rebuilds it when it is missing) and checks that the tools are present"""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
w = tempfile.mkdtemp(prefix='nvc-setup-')
try:
    print(build.exporter(w))
    import z3
    print('z3', z3.get_version_string())
finally:
    shutil.rmtree(w, ignore_errors=True)
