"""Import order: tensor factories are wrapped first, then the project is imported and instrumented."""
import importlib
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


def boot(modules=()):
    sys.setrecursionlimit(20000)
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import torch
    torch.set_num_threads(1)
    from . import tensor
    tensor.install()
    from . import harness
    harness.patch_apply()
    from . import rpu_stub
    importlib.import_module("aihwkit")
    rpu_stub.install()
    import aihwkit.simulator
    aihwkit.simulator.rpu_base = sys.modules["aihwkit.simulator.rpu_base"]
    for m in ("aihwkit", "aihwkit.simulator.configs", "aihwkit.simulator.presets", "aihwkit.nn", "aihwkit.optim",
              "aihwkit.inference", "aihwkit.nn.conversion") + tuple(modules):
        importlib.import_module(m)
    harness.patch_context()
    harness.instrument()
    return harness
