"""setup_cmd: nothing has to be built (the code under test is pure Python); verify that the tools are there."""
import importlib, os, shutil, sys
for m in ("numpy", "scipy", "numba", "jax", "orjson", "Stemmer", "huggingface_hub", "pytrec_eval", "tqdm"):
    importlib.import_module(m)
assert shutil.which("gcc"), "gcc is needed for the fault-injection shim"
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(os.path.join(here, "checks"))):
    if f.endswith(".py"):
        compile(open(os.path.join(here, "checks", f)).read(), f, "exec")
print("ok")
