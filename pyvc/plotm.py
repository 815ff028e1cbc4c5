"""Trusted model: pictures written by matplotlib."""
from __future__ import annotations

import matplotlib.pyplot as _plt

from .core import Opaque
from .filem import open_path
from .interp import Model
from .intrinsics import reg

@reg(_plt.savefig)
def p_savefig(ip, path, *a, **kw):
    open_path(ip, path, "w").e.content = Opaque(str, "picture")


@reg(_plt.close)
@reg(_plt.clf)
def p_none(ip, *a, **kw):
    return None


class FigM(Model):
    m_type = object

    def c_savefig(self, ip, path, *a, **kw):
        p_savefig(ip, path)

    def c_clf(self, ip):
        return None


