"""Property id -> analysis."""
from common import *
import laws

TABLE = {}


def prop(pid):
    def d(f):
        TABLE[pid] = f
        return f
    return d


def build(pid):
    if pid not in TABLE:
        raise CheckError('unknown property ' + pid)
    chk = Check(pid)
    TABLE[pid](chk)
    return chk


@prop('P01')
def _(c):
    laws.check_laws(c, ['laws_vec.cpp'], 40)


@prop('P02')
def _(c):
    laws.check_laws(c, ['laws_rot.cpp'], 20)


@prop('P03')
def _(c):
    laws.check_laws(c, ['laws_geom.cpp', 'laws_geom2.cpp'], 40)


@prop('P04')
def _(c):
    laws.check_laws(c, ['laws_shape.cpp'], 25)


@prop('P05')
def _(c):
    laws.check_laws(c, ['laws_aabb.cpp'], 20)


@prop('P06')
def _(c):
    laws.check_laws(c, ['laws_mass.cpp'], 12)


@prop('P07')
def _(c):
    laws.check_laws(c, ['laws_row.cpp'], 15)


@prop('P08')
def _(c):
    laws.check_laws(c, ['laws_tri.cpp'], 15)


@prop('P09')
def _(c):
    laws.check_laws(c, ['laws_util.cpp'], 25)


@prop('P10')
def _(c):
    laws.check_laws(c, ['laws_mesh.cpp'], 25)


@prop('P11')
def _(c):
    laws.check_laws(c, ['laws_s11n.cpp'], 30)


@prop('P12')
def _(c):
    laws.check_laws(c, ['laws_par.cpp'], 10)


@prop('P13')
def _(c):
    laws.check_laws(c, ['laws_con.cpp'], 45)


@prop('P14')
def _(c):
    laws.check_laws(c, ['laws_ray.cpp'], 25)


@prop('P15')
def _(c):
    laws.check_laws(c, ['laws_col.cpp', 'laws_col2.cpp'], 30)


@prop('P16')
def _(c):
    laws.check_laws(c, ['laws_graph.cpp'], 15)


@prop('P17')
def _(c):
    laws.check_laws(c, ['laws_dtree.cpp'], 12)


@prop('P18')
def _(c):
    laws.check_laws(c, ['laws_body.cpp'], 15)


@prop('P19')
def _(c):
    laws.check_laws(c, ['laws_touch.cpp'], 15)
