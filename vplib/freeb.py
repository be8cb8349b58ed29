"""External-field tables for free-boundary workloads (cached per process)."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_cache = {}

GRIDS = {
    "solovev": dict(number_of_field_periods=1, r_grid_minimum=2.0, r_grid_maximum=6.0,
                    z_grid_minimum=-2.0, z_grid_maximum=2.0, nr=71, nphi=1, sym=False),
    "cth_like": dict(number_of_field_periods=5, r_grid_minimum=.45, r_grid_maximum=1.05,
                     z_grid_minimum=-.3, z_grid_maximum=.3, nr=51, nphi=12, sym=True),
}


def params(name, nr=None, nphi=None, sym=None, norm=False, **over):
    from vmecpp import _free_boundary as fb
    g = dict(GRIDS[name])
    a, b, c = g.pop("nr"), g.pop("nphi"), g.pop("sym")
    g.update(over)
    n = nr or a
    return fb.MakegridParameters(
        normalize_by_currents=norm, assume_stellarator_symmetry=c if sym is None else sym,
        number_of_r_grid_points=n, number_of_z_grid_points=n,
        number_of_phi_grid_points=nphi or b, **g)


def table(name, **kw):
    key = (name, tuple(sorted(kw.items())))
    if key not in _cache:
        from vmecpp import _free_boundary as fb
        _cache[key] = fb.MagneticFieldResponseTable.from_coils_file(
            f"{VERIF}/data/coils.{name}", params(name, **kw))
    return _cache[key]
