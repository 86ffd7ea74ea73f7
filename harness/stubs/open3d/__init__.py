"""Stand-in for open3d (not installed here): gradslam only uses it to hand arrays to a viewer."""
import numpy as _np


class _Vec(_np.ndarray):
    pass


class _Utility:
    @staticmethod
    def Vector3dVector(a):
        a = _np.asarray(a, dtype=_np.float64)
        assert a.ndim == 2 and a.shape[1] == 3
        return a.copy()


class _PointCloud:
    def __init__(self):
        self.points = self.colors = self.normals = None

    def has_points(self):
        return self.points is not None and len(self.points) > 0

    def has_colors(self):
        return self.colors is not None and len(self.colors) > 0

    def has_normals(self):
        return self.normals is not None and len(self.normals) > 0


class _Geometry:
    PointCloud = _PointCloud


utility = _Utility
geometry = _Geometry
