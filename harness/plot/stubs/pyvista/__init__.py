"""Records what is drawn instead of drawing it."""
import numpy as np

import pyvista.plotting as plotting


class Thing:
    """Anything whose use does not matter here."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Thing()

    def __call__(self, *a, **k):
        return Thing()

    def __getitem__(self, k):
        return Thing()

    def __setitem__(self, k, v):
        pass

    def __setattr__(self, k, v):
        pass


class Line:
    def __init__(self, points):
        self.points = np.array(points, dtype=float)
        if self.points.ndim != 2 or self.points.shape[1] != 3:
            raise ValueError("Array of points must have three values per point")
        if len(self.points) < 2:
            raise ValueError(">=2 points need to define multiple lines.")
        self.data = {}

    def __getitem__(self, k):
        return self.data[k]

    def __setitem__(self, k, v):
        self.data[k] = v

    point_data = property(lambda self: self.data)
    n_points = property(lambda self: len(self.points))

    def tube(self, *a, **k):
        return self


def MultipleLines(points=None):
    return Line([[-0.5, 0, 0], [0.5, 0, 0]] if points is None else points)


def lines_from_points(points, close=False):
    if close:
        raise TypeError("a closed line")
    return Line(points)


def Spline(points, *a, **k):
    raise TypeError("a spline")


# what was drawn
drawn = []


class Camera(Thing):
    pass


class Plotter(Thing):
    def __init__(self, *a, **k):
        drawn.append(("plotter",))

    def add_mesh(self, mesh, *a, **k):
        if isinstance(mesh, Line):
            if a:
                raise TypeError("positional arguments")
            scalars = k.get("scalars")
            if isinstance(scalars, str):
                scalars = mesh.data[scalars]
            drawn.append(("line", mesh.points, None if scalars is None else np.array(scalars, dtype=float)))
        return Thing()

    def add_lines(self, *a, **k):
        raise TypeError("lines")

    def add_point_labels(self, points, labels, *a, **k):
        if isinstance(labels, str):
            raise TypeError("labels")
        points = np.array(points, dtype=float)
        labels = [str(x) for x in labels]
        if len(points) != len(labels):
            raise ValueError("There must be one label for each point")
        drawn.append(("labels", points, labels))
        return Thing()

    def show(self, *a, **k):
        drawn.append(("show",))


def __getattr__(name):
    if name.startswith("__") or name == "plotting":
        raise AttributeError(name)
    return Thing()
