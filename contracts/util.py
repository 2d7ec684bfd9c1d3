"""helpers shared by contracts"""
import copy
import os
import shutil
import tempfile
import numpy as np
import pandas as pd


class swap:
    """temporarily replace an attribute"""

    def __init__(self, owner, name, value):
        self.owner, self.name, self.value = owner, name, value

    def __enter__(self):
        self.had = self.name in vars(self.owner) if hasattr(self.owner, '__dict__') else True
        self.old = getattr(self.owner, self.name)
        setattr(self.owner, self.name, self.value)

    def __exit__(self, *a):
        if self.had:
            setattr(self.owner, self.name, self.old)
        else:
            delattr(self.owner, self.name)


class tempdir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pyvc_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class quiet:
    """swallow what the code prints"""

    def __enter__(self):
        import contextlib
        import io
        self.s = contextlib.ExitStack()
        self.s.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self.s.enter_context(contextlib.redirect_stderr(io.StringIO()))

    def __exit__(self, *a):
        self.s.close()


def base_assessment(**k):
    from pelicun import assessment
    return assessment.AssessmentBase({'Verbose': False, 'PrintLog': False, 'LogFile': None, **k})


def full_assessment(**k):
    from pelicun import assessment
    return assessment.Assessment({'Verbose': False, 'PrintLog': False, 'LogFile': None, **k})
