from ._codec import codec_parts, ASSUMPTIONS, BOUND1
from ..specs import C25


def parts(tier):
    return codec_parts(C25, tier, {"histograms": BOUND1})
