"""Records what is drawn instead of drawing it."""


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    import pyvista

    return getattr(pyvista, name)
