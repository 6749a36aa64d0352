"""A private copy of the package under test.

The live tool writes next to its own source, so every check works on a copy of
/repo/lazy_type_hint (taken from the current working tree) in a temporary directory
which the check removes when it ends.
"""
from __future__ import annotations

import atexit
import os
import shutil
import sys
import tempfile
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PKG = "lazy_type_hint"


def copy_package(dst: Path) -> Path:
    """Copy the package below `dst`; returns the copied package directory."""
    target = dst / PKG
    shutil.copytree(
        REPO / PKG, target, ignore=shutil.ignore_patterns("build", "*.pyi", "__pycache__", "*.pyc", ".mypy_cache")
    )
    return target


class Scratch:
    def __init__(self) -> None:
        self.dir = Path(tempfile.mkdtemp(prefix="verif_lth_")).resolve()
        self.owner = os.getpid()
        self.src = self.dir / "src"
        self.src.mkdir()
        self.pkg = copy_package(self.src)
        self.tmp = self.dir / "tmp"
        self.tmp.mkdir()
        atexit.register(self.remove)

    def activate(self) -> None:
        """Make this process import the package from the copy."""
        sys.path.insert(0, str(self.src))
        os.environ["TMPDIR"] = str(self.tmp)
        tempfile.tempdir = None
        import lazy_type_hint

        where = Path(lazy_type_hint.__file__).resolve()
        if self.src not in where.parents:
            raise RuntimeError(f"imported {where}, not the scratch copy")

    def fresh_copy(self, name: str) -> Path:
        """Another, separate copy (for histories of the live tool); returns its sys.path entry."""
        d = self.dir / name
        d.mkdir(parents=True)
        shutil.copytree(self.pkg, d / PKG, ignore=shutil.ignore_patterns("build", "*.pyi", "__pycache__"))
        return d

    def remove(self) -> None:
        if os.getpid() == self.owner:
            shutil.rmtree(self.dir, ignore_errors=True)
