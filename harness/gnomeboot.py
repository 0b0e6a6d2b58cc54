"""Makes `import gnome` load /repo/py_gnome's Python sources with the extension modules
staged by native.py and with the stand-in for the missing third-party package gridded."""
import importlib.util, os, pathlib, sys, warnings, logging

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
STAGE = pathlib.Path(os.environ["VERIF_STAGE"])


class _Native:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.startswith("gnome.cy_gnome.") or name.startswith("gnome.utilities.geometry.cy_"):
            rel = name.split(".")
            for so in (STAGE.joinpath(*rel[:-1])).glob(rel[-1] + ".cpython-*.so"):
                return importlib.util.spec_from_file_location(name, so)
        return None


sys.meta_path.insert(0, _Native)
sys.path.insert(0, REPO + "/py_gnome")
if importlib.util.find_spec("gridded") is None:
    sys.path.insert(0, str(VERIF / "shim"))
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import gnome  # noqa
warnings.resetwarnings()
warnings.simplefilter("ignore")
