"""Lazy module proxies, so that the driver can import check modules without JAX."""
import importlib


class Lazy:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        return getattr(importlib.import_module(self._n), a)


fe = Lazy("feax")
jax = Lazy("jax")
jnp = Lazy("jax.numpy")
gene = Lazy("feax.gene")
mech = Lazy("feax.mechanics")
