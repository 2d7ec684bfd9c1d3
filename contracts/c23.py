"""C23: see c22"""
from contracts import c22  # noqa: F401
