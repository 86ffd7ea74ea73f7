"""Import of the code under test (and of its open3d stand-in)."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("OMP_NUM_THREADS", "2")
warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
for p in (os.path.join(HERE, "stubs"), os.environ.get("GRADSLAM_REPO", "/repo")):
    if p not in sys.path:
        sys.path.insert(0, p)
import torch  # noqa: E402

torch.set_num_threads(1)
import gradslam  # noqa: E402,F401
