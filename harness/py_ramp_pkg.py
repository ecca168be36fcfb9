# loads /repo's python_packages with a stand-in for the devsim module
import os, sys, types
REPO = os.environ.get("SE_REPO", "/repo")
def package(ds):
    for k in [k for k in sys.modules if k == "devsim" or k.startswith("devsim.")]: del sys.modules[k]
    sys.modules["devsim"] = ds; p = types.ModuleType("devsim.python_packages"); p.__path__ = [os.path.join(REPO, "python_packages")]; sys.modules["devsim.python_packages"] = p; ds.python_packages = p; ds.__path__ = []
