"""What the code under test draws, read back from the real plotting library."""
import contextlib
import warnings


@contextlib.contextmanager
def drawn(log, figures_saved=None):
    """Appends to `log`, in the end, ("plot", xs, ys, label) for every curve
    and ("set_xlabel", text) for every labelled axis of the figures made
    meanwhile, and at once ("saved", name) for every picture; no picture is
    rendered or written.  `figures_saved` collects the figures of the pictures."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    figures = []
    init, save, show = Figure.__init__, Figure.savefig, plt.show

    def __init__(self, *a, **k):
        figures.append(self)
        init(self, *a, **k)
    Figure.__init__ = __init__

    def savefig(self, fname, *a, **k):
        log.append(("saved", str(fname)))
        if figures_saved is not None:
            figures_saved.append(self)
    Figure.savefig = savefig
    plt.show = lambda *a, **k: None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        Figure.__init__, Figure.savefig, plt.show = init, save, show
        for f in figures:
            for ax in f.axes:
                legend = ax.get_legend()
                texts = [t.get_text() for t in legend.get_texts()] if legend else []
                for c in ax.get_lines():
                    label = " ".join([str(c.get_label())] + texts)
                    log.append(("plot", list(c.get_xdata(orig=True)), list(c.get_ydata(orig=True)), label))
                if ax.get_xlabel():
                    log.append(("set_xlabel", ax.get_xlabel()))
            plt.close(f)
