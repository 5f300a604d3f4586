"""Makes `import pystatsm` load /repo's current tree with the given extensions."""
import importlib.machinery, importlib.util, json, os, sys, warnings

REPO = os.environ.get("VP_REPO", "/repo")


class _ExtFinder:
    def __init__(self, so):
        self.so = {f"pystatsm.utilities.{k}": v for k, v in so.items()}

    def find_spec(self, name, path=None, target=None):
        p = self.so.get(name)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, p)
        return importlib.util.spec_from_file_location(name, p, loader=loader)


def boot():
    so = json.loads(os.environ.get("VERIF_EXT", "{}"))
    if so:
        sys.meta_path.insert(0, _ExtFinder(so))
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
