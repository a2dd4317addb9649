"""Small rasters for the line-of-sight checks."""
import numpy as np
from osgeo import osr

from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.elevation import Elevation

_SR = {}


def sref(epsg):
    if epsg not in _SR:
        s = osr.SpatialReference()
        s.ImportFromEPSG(epsg)
        _SR[epsg] = s
    return _SR[epsg].Clone()


def bbox(x1, y1, x2, y2):
    """(max_x, max_y, min_x, min_y) in the field order of the named tuple"""
    return UTMBoundingBox(max_utm_x=x2, max_utm_y=y2, min_utm_x=x1, min_utm_y=y1)


def raster(matrix, left, top, xres=1.0, yres=None, epsg=32631, box=None, dtype=np.float32, time=None):
    m = np.array(matrix, dtype=dtype)
    yres = xres if yres is None else yres
    if box is None:
        box = bbox(left, top - yres * m.shape[0], left + xres * m.shape[1], top)
    return Elevation(m, box, xres, yres, left, top, sref(epsg), time)
