"""Mouse and key events on real (headless) DefDAP figures."""
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backend_bases import KeyEvent, MouseEvent
from matplotlib.backends.backend_agg import FigureCanvasAgg


def no_rendering():
    """Rendering pixels is no part of the properties and takes nearly all
    the time: only lay the axes out, which mouse positions depend on."""
    def draw(self, *args, **kwargs):
        for ax in self.figure.axes:
            ax.apply_aspect()
    FigureCanvasAgg.draw = draw


def mouse(ax, x, y, name='button_press_event', button=1, key=None):
    """Mouse event at data position (x, y) of the axes."""
    c = ax.figure.canvas
    c.draw()
    px = ax.transData.transform((x, y))
    c.callbacks.process(name, MouseEvent(name, c, px[0], px[1],
                                         button=button, key=key))


def drag(ax, x0, y0, x1, y1):
    mouse(ax, x0, y0)
    mouse(ax, x1, y1, 'button_release_event')


def press_key(ax, key):
    c = ax.figure.canvas
    for name in ('key_press_event', 'key_release_event'):
        c.callbacks.process(name, KeyEvent(name, c, key, 0, 0))


def click_button(btn, button=1, key=None):
    ax = btn.ax
    c = ax.figure.canvas
    c.draw()
    px = ax.transAxes.transform((.5, .5))
    for name in ('button_press_event', 'button_release_event'):
        c.callbacks.process(name, MouseEvent(name, c, px[0], px[1],
                                             button=button, key=key))


class Arrow:
    """One arrow of a quiver."""


def arrows(ax):
    """The arrows on the axes one by one, however many each quiver draws."""
    out = []
    for q in ax.collections:
        if not hasattr(q, 'U'):
            continue
        face = q.get_facecolor()
        for k in range(len(np.ravel(q.U))):
            a = Arrow()
            a.u = np.array([np.ravel(q.U)[k], np.ravel(q.V)[k]], float)
            a.pos = np.array([np.ravel(q.X)[k % q.X.size],
                              np.ravel(q.Y)[k % q.Y.size]], float)
            a.pivot, a.angles = q.pivot, q.angles
            a.colour = tuple(face[k % len(face)]) if len(face) else None
            out.append(a)
    return out


def close():
    plt.close('all')
