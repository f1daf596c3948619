from . import o3  # noqa: F401
