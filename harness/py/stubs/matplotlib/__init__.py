"""Stand-in for matplotlib, which is not installed here: nothing is drawn, but what the package asks
to be drawn is recorded (see `log` and `Axes`), so that the properties about drawings can be decided.
"""
import sys
import types

import numpy as np

log = []      # (function name, args, kwargs) of every call on the current axes, in order
axes_list = []


class _Nothing:
    """Absorbs every call, attribute, item and context manager"""
    def __call__(self, *args, **kwargs):
        return _Nothing()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Nothing()

    def __getitem__(self, item):
        return _Nothing()

    def __setitem__(self, key, value):
        pass

    def __iter__(self):
        return iter((_Nothing(), _Nothing()))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Nothing()


class MatplotlibDeprecationWarning(DeprecationWarning):
    pass


class Artist:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def set(self, **kwargs):
        for name, value in kwargs.items():
            getattr(self, "set_" + name)(value)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Nothing()


class Collection(Artist):
    """Remembers its offsets, its data and its properties"""
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.offsets = kwargs.get("offsets")
        self.array = None
        self.linewidth = kwargs.get("lw", kwargs.get("linewidths"))

    def set_array(self, array):
        self.array = array

    def get_array(self):
        return self.array

    def set_offsets(self, offsets):
        self.offsets = offsets

    def get_offsets(self):
        return self.offsets

    def set_linewidth(self, value):
        self.linewidth = value

    set_linewidths = set_lw = set_linewidth

    def _remember(name, *aliases):
        def setter(self, value):
            for alias in aliases:
                self.kwargs.pop(alias, None)
            self.kwargs[name] = value
        return setter

    set_cmap = _remember("cmap")
    set_norm = _remember("norm")
    set_zorder = _remember("zorder")
    set_alpha = _remember("alpha")
    set_color = set_colors = _remember("colors", "color")
    set_edgecolor = set_edgecolors = set_ec = _remember("edgecolor", "edgecolors", "ec")
    set_facecolor = set_facecolors = set_fc = _remember("facecolor", "facecolors", "fc")


class LineCollection(Collection):
    def __init__(self, segments=(), *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.segments = segments

    def set_segments(self, segments):
        self.segments = segments


class PatchCollection(Collection):
    pass


class Line3DCollection(LineCollection):
    pass


def _juggle_axes(xs, ys, zs, zdir):
    if zdir == "x":
        return zs, xs, ys
    if zdir == "y":
        return xs, zs, ys
    return xs, ys, zs


class _TransLimits:
    def __init__(self, ax):
        self.ax = ax

    def transform(self, point):
        (x0, x1), (y0, y1) = self.ax.get_xlim(), self.ax.get_ylim()
        return np.array([(point[0] - x0) / (x1 - x0), (point[1] - y0) / (y1 - y0)])


class _Callbacks:
    def __init__(self):
        self.connected = []

    def connect(self, name, func):
        self.connected.append((name, func))

    def fire(self, name, ax):
        for n, func in self.connected:
            if n == name:
                func(ax)


class _Box:
    width = height = 0.8


class _Size:
    width = height = 4.0


class Figure:
    bbox_inches = _Size()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Nothing()


class Axes:
    """Axes limits work as usual, everything else is recorded"""
    def __init__(self, name="rectilinear"):
        self.name = name
        self.lim = {"x": (0.0, 1.0), "y": (0.0, 1.0)}
        self.collections = []
        self.patches = []
        self.labels = {}
        self.legend_entries = ([], [])
        self.callbacks = _Callbacks()
        self.transLimits = _TransLimits(self)
        self.transData = _Nothing()

    def get_figure(self):
        return Figure()

    def get_position(self):
        return _Box()

    figure = property(get_figure)

    def get_xlim(self):
        return self.lim["x"]

    def get_ylim(self):
        return self.lim["y"]

    def _set(self, axis, left, right, **kwargs):
        if right is None and np.iterable(left):
            left, right = left
        left = self.lim[axis][0] if left is None else left
        right = self.lim[axis][1] if right is None else right
        self.lim[axis] = (left, right)
        log.append(("set_%slim" % axis, (left, right), kwargs))
        self.callbacks.fire(axis + "lim_changed", self)

    def set_xlim(self, left=None, right=None, **kwargs):
        self._set("x", left, right, **kwargs)

    def set_ylim(self, bottom=None, top=None, **kwargs):
        self._set("y", bottom, top, **kwargs)

    def add_collection(self, collection, *args, **kwargs):
        self.collections.append(collection)
        log.append(("add_collection", (collection,) + args, kwargs))
        return collection

    def add_collection3d(self, collection, *args, **kwargs):
        return self.add_collection(collection, *args, **kwargs)

    def add_patch(self, patch):
        self.patches.append(patch)
        log.append(("add_patch", (patch,), {}))
        return patch

    def autoscale_view(self, *args, **kwargs):
        """Fit the limits to the collections"""
        points = []
        for c in self.collections:
            if isinstance(c, LineCollection):
                p = np.asarray(c.segments, dtype=float)
                points.append(p.reshape(-1, p.shape[-1])[:, :2] if p.size else np.zeros((0, 2)))
            elif c.offsets is not None:
                points.append(np.asarray(c.offsets, dtype=float).reshape(-1, 2))
        points = np.concatenate(points) if points else np.zeros((0, 2))
        if len(points):
            for i, axis in enumerate("xy"):
                self._set(axis, points[:, i].min(), points[:, i].max())

    def set_xticks(self, ticks, labels=None, **kwargs):
        log.append(("set_xticks" if labels is None else "xticks", (ticks, labels), kwargs))

    def set_xticklabels(self, labels, **kwargs):
        log.append(("xticks", ([a for n, a, k in log if n == "set_xticks"][-1][0], labels), kwargs))

    def set_aspect(self, aspect, *args, **kwargs):
        log.append(("set_aspect", ("equal" if aspect == 1 else aspect,) + args, kwargs))

    def set(self, **kwargs):
        for name, value in kwargs.items():
            getattr(self, "set_" + name)(value)

    def set_xlabel(self, text, *args, **kwargs):
        self.labels["x"] = text

    def set_ylabel(self, text, *args, **kwargs):
        self.labels["y"] = text

    def set_title(self, text, *args, **kwargs):
        self.labels["title"] = text

    def get_legend_handles_labels(self):
        return self.legend_entries

    def get_xticks(self):
        return np.linspace(*self.lim["x"], 5)

    def get_yticks(self):
        return np.linspace(*self.lim["y"], 5)

    def has_data(self):
        return bool(self.collections)

    @property
    def spines(self):
        return _Nothing()

    @property
    def xaxis(self):
        return _Nothing()

    @property
    def yaxis(self):
        return _Nothing()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kwargs):
            artist = Artist(*args, **kwargs)
            log.append((name, args, dict(kwargs, artist=artist)))
            return artist
        return call


def reset(name="rectilinear"):
    """Forget everything, and start with new axes of the given kind"""
    del log[:]
    axes_list[:] = [Axes(name)]
    return axes_list[0]


def _gca(**kwargs):
    if not axes_list:
        reset()
    return axes_list[-1]


def _sca(ax):
    if ax in axes_list:
        axes_list.remove(ax)
    axes_list.append(ax)


def _lim(axis):
    def lim(*args, **kwargs):
        if args or kwargs:
            getattr(_gca(), "set_%slim" % axis)(*args, **kwargs)
        return getattr(_gca(), "get_%slim" % axis)()
    return lim


def _ticks(axis):
    def ticks(positions=None, labels=None, ticks=None, **kwargs):
        positions = ticks if positions is None else positions
        log.append(("%sticks" % axis, (positions, labels), kwargs))
    return ticks


def _current_image(mappable):
    log.append(("sci", (mappable,), {}))


def _color_map(name):
    """A fixed but arbitrary color for each name and number"""
    def cmap(values):
        v = np.atleast_1d(np.asarray(values, dtype=float))
        h = (sum(ord(c) * (i + 1) for i, c in enumerate(str(name))) % 97) / 97
        return np.stack([v, (v + h) % 1, 1 - v, np.ones_like(v)], axis=-1)
    return cmap


class Polygon(Artist):
    def __init__(self, xy, *args, **kwargs):
        super().__init__(xy, *args, **kwargs)
        self.xy = xy


class _Pyplot(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name[0].isupper() or name in ("cycler", "figure", "subplots", "style"):
            return _Nothing()
        return getattr(_gca(), name)


def _sub(name, kind=_Module, **members):
    module = kind(__name__ + "." + name)
    module.__dict__.update(members)
    sys.modules[module.__name__] = module
    globals()[name.split(".")[0]] = module
    return module


class _ColorConverter:
    names = dict(white=(1.0, 1.0, 1.0), black=(0.0, 0.0, 0.0), red=(1.0, 0.0, 0.0), lime=(0.0, 1.0, 0.0), blue=(0.0, 0.0, 1.0))

    def to_rgb(self, color):
        if isinstance(color, str):
            if color in self.names:
                return self.names[color]
            if color.startswith("#"):
                return tuple(int(color[i:i + 2], 16) / 255 for i in (1, 3, 5))
            return (float(color),) * 3
        return tuple(float(c) for c in color)[:3]

    def to_rgba_array(self, color, alpha=None):
        return np.atleast_2d(np.append(self.to_rgb(color), 1.0))


class ListedColormap:
    def __init__(self, colors):
        self.colors = colors
        self.N = len(colors)

    def color(self, index):
        return self.colors[min(max(int(index), 0), self.N - 1)]


class BoundaryNorm:
    def __init__(self, boundaries, ncolors):
        self.boundaries, self.N = np.asarray(boundaries), ncolors

    def index(self, value):
        bins = len(self.boundaries) - 1
        i = int(np.digitize([value], self.boundaries)[0]) - 1
        if 0 <= i < bins and self.N > bins:
            i = 0 if bins == 1 else int((self.N - 1) / (bins - 1) * i)
        return i


_sub("pyplot", _Pyplot, gca=_gca, sca=_sca, sci=_current_image, xlim=_lim("x"), ylim=_lim("y"), xticks=_ticks("x"),
     yticks=_ticks("y"), xlabel=lambda *a, **k: _gca().set_xlabel(*a, **k), ylabel=lambda *a, **k: _gca().set_ylabel(*a, **k),
     title=lambda *a, **k: _gca().set_title(*a, **k), Polygon=Polygon, Axes=Axes, get_cmap=_color_map)
_sub("style")
_sub("colors", colorConverter=_ColorConverter(), ListedColormap=ListedColormap, BoundaryNorm=BoundaryNorm)
_sub("path")
_sub("transforms")
_sub("patches", Polygon=Polygon)
_sub("ticker")
_sub("artist", Artist=Artist, allow_rasterization=lambda f: f)
_sub("collections", Collection=Collection, LineCollection=LineCollection,
     PatchCollection=PatchCollection)

_toolkits = types.ModuleType("mpl_toolkits")
_mplot3d = _Module("mpl_toolkits.mplot3d")
_art3d = _Module("mpl_toolkits.mplot3d.art3d")
_art3d.__dict__.update(Line3DCollection=Line3DCollection, juggle_axes=_juggle_axes)
_mplot3d.art3d = _art3d
_mplot3d.proj3d = _Module("mpl_toolkits.mplot3d.proj3d")
_toolkits.mplot3d = _mplot3d
for _m in (_toolkits, _mplot3d, _art3d, _mplot3d.proj3d):
    sys.modules[_m.__name__] = _m

rcParams = {}


def use(*args, **kwargs):
    pass


def get_backend():
    return "agg"


def rc_context(*args, **kwargs):
    return _Nothing()
