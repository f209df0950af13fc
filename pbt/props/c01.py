"""Programs compiled for the virtual machine do what the language says."""
from .. import gen, oracle
from .sem import Semantics


class C01(Semantics):
    id = 'C01'
    backend = oracle.VM
    swarm = [k for k, v in gen.Feat.DEFAULT.items() if v is True and k not in ('printf', 'print')]
    quick = (24000, 45)
    thorough = (600000, 800)
    chunk = 16
    assumptions = ['the harness executes VM images with its own interpreter of the virtual machine (the VM itself is not in the repository)',
                   'generated programs stay inside the language subset whose meaning the documentation fixes; the classes recorded as known findings are not generated']


prop = C01()
