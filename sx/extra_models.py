"""Models of Python-level library functions, installed before the imports."""

from . import calls


def install():
    calls.install_late_models()
