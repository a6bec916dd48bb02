"""Building reports without reading IMMA files."""
import Extended_IMMA as ex


class Rec:
    """what a decoded IMMA record offers"""

    def __init__(self, **data):
        self.data = data


def report(cls=None, **vals):
    return (cls or ex.MarineReportQC)(Rec(**vals))
