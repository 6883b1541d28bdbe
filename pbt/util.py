import importlib
import pkgutil


def import_all():
    """import every module of the package that can be imported; returns names"""
    import src.DLMS_SPODES as root
    ok = []
    for m in pkgutil.walk_packages(root.__path__, root.__name__ + ".", onerror=lambda n: None):
        try:
            importlib.import_module(m.name)
            ok.append(m.name)
        except Exception:
            pass
    return ok


def subclasses(cls):
    ret = []
    for c in cls.__subclasses__():
        if c not in ret:
            ret.append(c)
            for d in subclasses(c):
                if d not in ret:
                    ret.append(d)
    return ret
