"""Every Python process started by a check (joblib workers included) resolves
VolterraBasis.fkernel to the extension the check has just compiled."""
import importlib.machinery
import importlib.util
import os
import sys

_so = os.environ.get("VB_FKERNEL_SO")
if _so:

    class _FkernelFinder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name == "VolterraBasis.fkernel":
                loader = importlib.machinery.ExtensionFileLoader(name, _so)
                return importlib.util.spec_from_file_location(name, _so, loader=loader)
            return None

    sys.meta_path.insert(0, _FkernelFinder)
