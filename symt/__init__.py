"""symt: symbolic execution of PyTorch code at the aten-operator level, decided by z3."""
