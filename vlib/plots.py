"""Headless figures for the checks."""


def setup():
    """headless matplotlib without the slow layout and drawing passes (saving still renders)"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure

    Figure.tight_layout = lambda self, *a, **k: None
    if not getattr(FigureCanvasAgg, "_lazy", False):
        draw, save = FigureCanvasAgg.draw, Figure.savefig
        on = []

        def savefig(self, *a, **k):
            on.append(1)
            try:
                k.update(dpi=30)
                return save(self, *a, **k)
            finally:
                on.pop()

        FigureCanvasAgg._lazy = True
        FigureCanvasAgg.draw = lambda self: draw(self) if on else None
        Figure.savefig = savefig
    return plt
