from . import blocks, radial  # noqa: F401
